//! Process-level instrumentation: a counting allocator and interposed libc calls.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

fn grow(n: usize) -> bool {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > CAP.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(live, Relaxed);
    LARGEST.fetch_max(n, Relaxed);
    true
}

fn over(n: usize) {
    let msg = b"RV: memory cap exceeded\n";
    unsafe {
        libc::write(2, msg.as_ptr() as *const _, msg.len());
    }
    let _ = n;
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            over(l.size());
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            over(l.size());
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                over(n);
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

pub fn set_cap(n: usize) {
    CAP.store(n, Relaxed);
}

/// Bytes of the heap in use.
pub fn live() -> usize {
    LIVE.load(Relaxed)
}

/// Measures the growth of the heap from the creation of the meter.
pub struct Meter(usize);
impl Meter {
    pub fn start() -> Meter {
        let live = LIVE.load(Relaxed);
        PEAK.store(live, Relaxed);
        LARGEST.store(0, Relaxed);
        Meter(live)
    }
    pub fn peak(&self) -> usize {
        PEAK.load(Relaxed).saturating_sub(self.0)
    }
    pub fn retained(&self) -> usize {
        LIVE.load(Relaxed).saturating_sub(self.0)
    }
}

pub fn cpu_ns() -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe {
        libc::syscall(
            libc::SYS_clock_gettime,
            libc::CLOCK_THREAD_CPUTIME_ID,
            &mut ts as *mut _,
        );
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

// ---------------------------------------------------------------------------------------------
// wall clock

static FAKE: AtomicBool = AtomicBool::new(false);
static FAKE_NOW: AtomicI64 = AtomicI64::new(0);
static CLOCK_READS: AtomicUsize = AtomicUsize::new(0);

/// Sets the current time seen by this process (seconds since the epoch).
pub fn fake_now(t: Option<i64>) {
    match t {
        Some(t) => {
            FAKE_NOW.store(t, Relaxed);
            FAKE.store(true, Relaxed);
        }
        None => FAKE.store(false, Relaxed),
    }
}
pub fn clock_reads() -> usize {
    CLOCK_READS.load(Relaxed)
}

#[cfg(not(feature = "nohooks"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME && FAKE.load(Relaxed) {
        CLOCK_READS.fetch_add(1, Relaxed);
        (*ts).tv_sec = FAKE_NOW.load(Relaxed);
        (*ts).tv_nsec = 0;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

// ---------------------------------------------------------------------------------------------
// directory reading

static RD_COUNT: AtomicI64 = AtomicI64::new(0);
static RD_FAIL_AT: AtomicI64 = AtomicI64::new(-1);
static RD_FAIL_DONE: AtomicI64 = AtomicI64::new(0);

/// Makes the n-th readdir (from now on, counting from zero) of this process fail with EIO.
pub fn fail_readdir(n: Option<i64>) {
    RD_COUNT.store(0, Relaxed);
    RD_FAIL_DONE.store(0, Relaxed);
    RD_FAIL_AT.store(n.unwrap_or(-1), Relaxed);
}
/// (calls, injected failures) since the last `fail_readdir`
pub fn readdir_stats() -> (i64, i64) {
    (RD_COUNT.load(Relaxed), RD_FAIL_DONE.load(Relaxed))
}

#[cfg(not(feature = "nohooks"))]
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    type F = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let n = RD_COUNT.fetch_add(1, Relaxed);
    if n == RD_FAIL_AT.load(Relaxed) {
        RD_FAIL_DONE.fetch_add(1, Relaxed);
        *libc::__errno_location() = libc::EIO;
        return std::ptr::null_mut();
    }
    let mut f = REAL.load(Relaxed);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, b"readdir64\0".as_ptr() as *const _) as usize;
        REAL.store(f, Relaxed);
    }
    let f: F = std::mem::transmute(f);
    f(d)
}

// ---------------------------------------------------------------------------------------------
// reading files

static READ_COUNT: AtomicI64 = AtomicI64::new(0);
static READ_FAIL_AT: AtomicI64 = AtomicI64::new(-1);
static READ_FAIL_DONE: AtomicI64 = AtomicI64::new(0);

/// Makes the n-th read(2) (from now on, counting from zero) of this process fail with EIO.
pub fn fail_read(n: Option<i64>) {
    READ_COUNT.store(0, Relaxed);
    READ_FAIL_DONE.store(0, Relaxed);
    READ_FAIL_AT.store(n.unwrap_or(-1), Relaxed);
}
/// (calls, injected failures) since the last `fail_read`
pub fn read_stats() -> (i64, i64) {
    (READ_COUNT.load(Relaxed), READ_FAIL_DONE.load(Relaxed))
}

#[cfg(not(feature = "nohooks"))]
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: usize) -> isize {
    let k = READ_COUNT.fetch_add(1, Relaxed);
    if k == READ_FAIL_AT.load(Relaxed) {
        READ_FAIL_DONE.fetch_add(1, Relaxed);
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

// ---------------------------------------------------------------------------------------------
// opening files

static OPEN_COUNT: AtomicUsize = AtomicUsize::new(0);
static OPEN_WRITES: AtomicUsize = AtomicUsize::new(0);

pub fn reset_opens() {
    OPEN_COUNT.store(0, Relaxed);
    OPEN_WRITES.store(0, Relaxed);
}
/// (opens, opens that could modify something) since the last reset
pub fn opens() -> (usize, usize) {
    (OPEN_COUNT.load(Relaxed), OPEN_WRITES.load(Relaxed))
}

#[cfg(not(feature = "nohooks"))]
#[no_mangle]
pub unsafe extern "C" fn open64(
    path: *const libc::c_char,
    flags: libc::c_int,
    mode: libc::c_uint,
) -> libc::c_int {
    OPEN_COUNT.fetch_add(1, Relaxed);
    let w = libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND;
    if flags & w != 0 {
        OPEN_WRITES.fetch_add(1, Relaxed);
    }
    let r = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode);
    r as libc::c_int
}

pub fn hooked() -> bool {
    cfg!(not(feature = "nohooks"))
}

/// False in instrumented builds, whose CPU time says nothing (RV_SLOW is set by thorough.sh).
pub fn timed() -> bool {
    use std::sync::OnceLock;
    static T: OnceLock<bool> = OnceLock::new();
    *T.get_or_init(|| hooked() && std::env::var_os("RV_SLOW").is_none())
}

// ---------------------------------------------------------------------------------------------
// time zone

extern "C" {
    fn tzset();
}

/// Changes the time zone of this (single threaded) process.
pub fn set_tz(z: &str) {
    thread_local! {
        static CUR: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    }
    CUR.with(|c| {
        if *c.borrow() != z {
            std::env::set_var("TZ", z);
            #[cfg(not(miri))]
            unsafe {
                tzset()
            };
            *c.borrow_mut() = z.to_owned();
        }
    });
}
