//! P25: nothing is left behind, and nothing piles up.
//!
//! The same kind of work is done again and again, in stretches of doubling length, and the heap in
//! use, the open files and the threads are read between stretches, when nothing is alive. What is
//! kept once (something set up lazily, a buffer that is used again) shows in the first stretches
//! only; what is lost every time shows in all of them, in proportion.

use crate::bworld::{self, BWorld, WCfg};
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::hooks;
use crate::manif;
use crate::names;
use crate::props::p12::{hostile, show, walk_backup, Seen};
use crate::props::p19::{put, Scratch};
use crate::sup::Prop;
use crate::tarw::{Kind, Rec};
use crate::util::Rng;
use ruplicity::backend::local::LocalBackend;
use ruplicity::{Backend, Backup};
use std::cell::{Cell, RefCell};
use std::ffi::OsString;
use std::io::{self, Read};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P25",
        f: p25,
        quick: 3000,
        thorough: 10000,
        level: "exploration",
        rule: "a case is a series of whole lives of backups (opened, asked, dropped; every life another directory, also damaged, failing, local or in memory) or a series of rounds of requests to one open backup, in stretches of doubling length, with the heap, the open files and the threads measured in between; distinct by what was asked, non-trivial if something failed or was given",
        need: &[
            ("lives of backups", 25_000),
            ("hostile inputs", 8_000),
            ("rounds of requests", 20_000),
            ("requests that failed", 60_000),
            ("requests that were answered", 100_000),
            ("iterations abandoned", 30_000),
            ("lives of local backups", 12_000),
            ("rounds of requests to local backups", 5_000),
            ("measurements", 10_000),
            ("backups of many distinct names", 9),
        ],
        assumptions: &["what is kept once for the whole process (a table set up on first use, a buffer used again) is no loss; only growth that goes on in proportion to the work is"],
    }]
}

/// A backend that keeps no records, and may fail.
struct Quiet {
    files: Arc<bworld::Files>,
    st: Rc<St>,
}

struct St {
    rng: RefCell<Rng>,
    /// one operation every n fails
    one_in: Cell<u64>,
    open: Cell<i64>,
    chunk: Cell<usize>,
}

impl St {
    fn op(&self) -> io::Result<()> {
        let n = self.one_in.get();
        if n == 0 {
            return Ok(());
        }
        let mut r = self.rng.borrow_mut();
        if r.chance(1, n) {
            let k = crate::be::KINDS[r.usize(crate::be::KINDS.len())];
            return Err(if r.bool() {
                io::Error::from_raw_os_error(5)
            } else {
                io::Error::new(k, format!("injected failure {}", r.below(1000)))
            });
        }
        Ok(())
    }
}

struct QuietFile {
    data: Arc<Vec<u8>>,
    pos: usize,
    st: Rc<St>,
}
impl Drop for QuietFile {
    fn drop(&mut self) {
        self.st.open.set(self.st.open.get() - 1);
    }
}
impl Read for QuietFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.st.op()?;
        let n = buf.len().min(self.data.len() - self.pos).min(self.st.chunk.get());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Backend for Quiet {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = QuietFile;
    fn file_names(&self) -> io::Result<Vec<OsString>> {
        self.st.op()?;
        Ok(self.files.keys().map(|n| OsString::from_vec(n.clone())).collect())
    }
    fn open_file(&self, name: &Path) -> io::Result<QuietFile> {
        self.st.op()?;
        match self.files.get(name.as_os_str().as_bytes()) {
            Some(d) => {
                self.st.open.set(self.st.open.get() + 1);
                Ok(QuietFile {
                    data: d.clone(),
                    pos: 0,
                    st: self.st.clone(),
                })
            }
            None => Err(io::Error::new(io::ErrorKind::NotFound, "no such file")),
        }
    }
}

fn entries_in(dir: &str) -> usize {
    match std::fs::read_dir(dir) {
        Ok(d) => d.count(),
        Err(e) => crate::hbug!("{}: {}", dir, e),
    }
}

/// What is in use when nothing is alive.
#[derive(Clone, Copy, Debug)]
struct Use {
    heap: usize,
    fds: usize,
    threads: usize,
}

fn measure() -> Use {
    let fds = entries_in("/proc/self/fd");
    let threads = entries_in("/proc/self/task");
    Use {
        heap: hooks::live(),
        fds,
        threads,
    }
}

#[derive(Default)]
struct Tally {
    ok: u64,
    failed: u64,
    cut: u64,
    shown: u64,
    measured: u64,
    grown: u64,
    work: u64,
}

/// Whether the growth between the measurements, taken after stretches of doubling length, goes on
/// in proportion to them.
fn piles_up(at: &[Use]) -> Option<String> {
    for (name, f) in [
        ("bytes of heap", (&|u: &Use| u.heap) as &dyn Fn(&Use) -> usize),
        ("open files", &|u: &Use| u.fds),
        ("threads", &|u: &Use| u.threads),
    ] {
        let g: Vec<usize> = at.windows(2).map(|w| f(&w[1]).saturating_sub(f(&w[0]))).collect();
        let n = g.len();
        // twice as much every time, if it is in proportion
        if g.iter().all(|d| *d > 0) && g[n - 1] * 10 >= 13 * g[n - 2] && g[n - 1] >= g[0] << (n - 1) >> 1 {
            let g: Vec<String> = g.iter().map(|d| d.to_string()).collect();
            return Some(format!("{} pile up: {} more after each", name, g.join(", ")));
        }
    }
    None
}

fn more(a: &Use, b: &Use) -> bool {
    b.heap > a.heap || b.fds > a.fds || b.threads > a.threads
}

/// Does `work` in stretches and decides whether something grows with it.
fn stretches<F: FnMut(&mut Rng, &mut Tally) -> R>(r: &mut Rng, t: &mut Tally, what: &str, units: usize, mut work: F) -> R {
    const UNIT: usize = 16;
    let mut run = |r: &mut Rng, t: &mut Tally, n: usize| -> Result<Use, String> {
        for _ in 0..n {
            work(r, t)?;
            t.work += 1;
        }
        t.measured += 1;
        Ok(measure())
    };
    let mut last = run(r, t, UNIT)?;
    for _ in 0..units {
        let seed = r.next();
        let now = run(&mut Rng::new(seed), t, UNIT)?;
        if !more(&last, &now) {
            last = now;
            continue;
        }
        t.grown += 1;
        // the very same work again, 1, 2, 4, ... times
        let mut at = vec![now];
        for k in 0..5 {
            let mut u = now;
            for _ in 0..1 << k {
                u = run(&mut Rng::new(seed), t, UNIT)?;
            }
            if !more(&at[k], &u) {
                break;
            }
            at.push(u);
        }
        if at.len() == 6 {
            if let Some(e) = piles_up(&at) {
                return Err(format!("{} of {} (the same {} repeated 1, 2, 4, 8 and 16 times)", e, what, UNIT));
            }
        }
        // other work of that kind, in stretches of doubling length
        let mut at = vec![measure()];
        for k in 0..5 {
            let u = run(r, t, UNIT << k)?;
            if !more(&at[k], &u) {
                break;
            }
            at.push(u);
        }
        if at.len() == 6 {
            if let Some(e) = piles_up(&at) {
                return Err(format!("{} of {} (stretches of {} to {})", e, what, UNIT, UNIT << 4));
            }
        }
        last = measure();
    }
    Ok(())
}

/// A directory with names, users and volumes that no other one has.
fn strange(r: &mut Rng, users: usize, vols: usize) -> BWorld {
    let mut cfg = WCfg::normal();
    cfg.manifests = true;
    let mut w = BWorld {
        names: vec![],
        files: Default::default(),
        recs: Default::default(),
        mans: Default::default(),
    };
    let tag = r.next();
    let ts = names::instants(r, 2);
    for (k, id) in [(false, ts[0], ts[0]), (true, ts[0], ts[1])].iter().enumerate() {
        let recs: Vec<Rec> = (0..users)
            .map(|i| Rec {
                kind: Kind::Snap,
                path: format!("{:x}-{:06}", tag, i).into_bytes(),
                typ: *b"052".get(i % 3).unwrap_or(&b'0'),
                mtime: 1_000_000 + i as i64,
                uid: r.below(1 << 20),
                gid: r.below(1 << 20),
                uname: format!("u{:x}{}", tag & 0xffff, i * 2 + k).into_bytes(),
                gname: format!("g{:x}{}", tag & 0xffff, i * 2 + k).into_bytes(),
                mode: 0o644,
                link: if i % 3 == 2 { format!("l{:x}{}", tag, i).into_bytes() } else { vec![] },
                body: vec![],
            })
            .collect();
        let mut man = manif::random_man(r, vols);
        man.host = format!("h{:x}", tag);
        w.add_set(*id, recs, man, &cfg, r);
    }
    w
}

fn world(r: &mut Rng) -> BWorld {
    if r.chance(1, 2) {
        let n = 1 + r.usize(6);
        return strange(r, n, 3);
    }
    let mut cfg = WCfg::tame();
    cfg.chains = 2;
    cfg.snaps = 2;
    cfg.fs.ops = 4;
    cfg.fs.max_nodes = 10;
    cfg.plain_enc = r.bool();
    bworld::build(r, &cfg)
}

/// Some of the files missing, cut, or with other contents.
fn damage(r: &mut Rng, files: &bworld::Files) -> bworld::Files {
    let mut out = files.clone();
    if r.chance(1, 4) {
        return out;
    }
    for (n, d) in files {
        let mut v = (**d).clone();
        match r.below(12) {
            0 => {
                out.remove(n);
                continue;
            }
            1 => v.truncate(r.usize(d.len() + 1)),
            2 if !v.is_empty() => {
                for _ in 0..1 + r.usize(3) {
                    let i = r.usize(v.len());
                    v[i] = r.next() as u8;
                }
            }
            3 => {
                let k = r.usize(600);
                v = r.bytes(k);
            }
            4 => v.extend(d.iter().take(100)),
            _ => continue,
        }
        out.insert(n.clone(), Arc::new(v));
    }
    out
}

/// Requests of all kinds, some of them dropped half way.
fn ask<B: Backend>(b: &Backup<B>, r: &mut Rng, t: &mut Tally) -> R {
    let mut s = Seen::default();
    if r.chance(1, 4) {
        walk_backup(b, &[], &mut s, true)?;
        t.ok += s.good + s.man_good;
        t.failed += s.bad + s.man_bad;
        t.shown += s.shown;
        return Ok(());
    }
    let ss = match b.snapshots() {
        Ok(s) => s,
        Err(_) => {
            t.failed += 1;
            return Ok(());
        }
    };
    let mut all: Vec<_> = ss.into_iter().collect();
    r.shuffle(&mut all);
    for sn in all.iter().take(3) {
        match sn.entries() {
            Ok(e) => {
                t.ok += 1;
                let mut k = r.usize(6);
                for x in e.as_signature() {
                    if k == 0 {
                        t.cut += 1;
                        break;
                    }
                    k -= 1;
                    show(&x, &mut s);
                }
                if r.chance(1, 3) {
                    let mut sh = crate::util::Short::new(r.usize(200));
                    use std::fmt::Write;
                    if write!(sh, "{}", e).is_err() {
                        t.cut += 1;
                    }
                }
            }
            Err(e) => {
                t.failed += 1;
                show(e, &mut s);
            }
        }
        match sn.manifest() {
            Ok(m) => {
                t.ok += 1;
                let n = m.last_volume_index();
                if let Some(v) = m.volume(n) {
                    let _ = (m.first_volume_of_path(v.end_path_bytes()), v.hash().len());
                }
            }
            Err(e) => {
                t.failed += 1;
                show(e, &mut s);
            }
        };
    }
    if r.chance(1, 3) {
        if let Ok(x) = b.snapshots() {
            show(x.as_collections(), &mut s);
        }
    }
    t.shown += s.shown;
    Ok(())
}

fn state(r: &mut Rng) -> Rc<St> {
    Rc::new(St {
        rng: RefCell::new(r.fork()),
        one_in: Cell::new(0),
        open: Cell::new(0),
        chunk: Cell::new(*r.pick(&[usize::MAX, usize::MAX, 1, 7, 512, 1000])),
    })
}

/// One life of a backup in memory.
fn life(r: &mut Rng, t: &mut Tally) -> R {
    let w = world(r);
    let st = state(r);
    st.one_in.set(*r.pick(&[0, 0, 40, 8]));
    let files = Arc::new(damage(r, &w.files));
    drop(w);
    let b = Backup::new(Quiet {
        files,
        st: st.clone(),
    });
    match b {
        Ok(b) => {
            for _ in 0..r.usize(3) {
                ask(&b, r, t)?;
            }
            if r.bool() {
                drop(b.into_inner());
            } else {
                drop(b);
            }
        }
        Err(_) => t.failed += 1,
    }
    ensure!(
        st.open.get() == 0,
        "{} files of the backup are still open after it was dropped",
        st.open.get()
    );
    Ok(())
}

fn fill(dir: &Path, files: &bworld::Files, r: &mut Rng) {
    for (n, d) in files {
        if r.chance(1, 20) {
            // something else of that name
            let p = dir.join(std::ffi::OsStr::from_bytes(n));
            let made = match r.below(3) {
                0 => std::fs::create_dir(&p),
                1 => std::os::unix::fs::symlink("nowhere", &p),
                _ => Ok(put(&p, b"")),
            };
            if let Err(e) = made {
                crate::hbug!("{}: {}", p.display(), e);
            }
        } else {
            put(&dir.join(std::ffi::OsStr::from_bytes(n)), d);
        }
    }
}

/// Backups of a few directories, opened many times.
fn local_lives(c: &mut Ctx, t: &mut Tally) -> R {
    let mut r = c.rng.fork();
    let scratch = Scratch::new(c.idx);
    let n = 4;
    for i in 0..n {
        let d = scratch.0.join(format!("d{}", i));
        if let Err(e) = std::fs::create_dir(&d) {
            crate::hbug!("{}: {}", d.display(), e);
        }
        let w = world(&mut r);
        let files = if i == 0 { w.files.clone() } else { damage(&mut r, &w.files) };
        fill(&d, &files, &mut r);
    }
    let mut q = r.fork();
    let res = stretches(&mut q, t, "the lives of local backups", 3, |r, t| {
        // one of them is no directory at all
        let d = scratch.0.join(format!("d{}", r.usize(n + 1)));
        match r.below(6) {
            0 => hooks::fail_readdir(Some(r.below(8) as i64)),
            1 => hooks::fail_read(Some(r.below(12) as i64)),
            _ => (),
        }
        let b = Backup::new(LocalBackend::new(&d));
        let q = match b {
            Ok(ref b) => ask(b, r, t),
            Err(_) => {
                t.failed += 1;
                Ok(())
            }
        };
        drop(b);
        hooks::fail_readdir(None);
        hooks::fail_read(None);
        q
    });
    hooks::fail_readdir(None);
    hooks::fail_read(None);
    res
}

/// One open backup, asked again and again.
fn rounds(c: &mut Ctx, t: &mut Tally) -> R {
    let mut r = c.rng.fork();
    let w = world(&mut r);
    let st = state(&mut r);
    let files = Arc::new(damage(&mut r, &w.files));
    let be = Quiet {
        files,
        st: st.clone(),
    };
    let b = match Backup::new(be) {
        Ok(b) => b,
        Err(e) => return Err(format!("Backup::new: {}", e)),
    };
    // either everything that can be had is there already, or nothing is ever given
    if r.chance(2, 3) {
        let mut s = Seen::default();
        walk_backup(&b, &[], &mut s, true)?;
        t.ok += s.good + s.man_good;
        t.failed += s.bad + s.man_bad;
    } else {
        st.one_in.set(*r.pick(&[1, 1, 2]));
    }
    let before = Cell::new(None);
    let mut q = r.fork();
    stretches(&mut q, t, "the rounds of requests to an open backup", 3, |r, t| {
        ask(&b, r, t)?;
        if before.get().is_none() {
            before.set(Some(st.open.get()));
        }
        Ok(())
    })?;
    let open = st.open.get();
    ensure!(
        open <= before.get().unwrap_or(0).max(64),
        "{} files are open after the requests, {:?} after the first of them",
        open,
        before.get()
    );
    drop(b);
    ensure!(st.open.get() == 0, "{} files are open after the backup was dropped", st.open.get());
    Ok(())
}

/// One open backup of a local directory, asked again and again.
fn local_rounds(c: &mut Ctx, t: &mut Tally) -> R {
    let mut r = c.rng.fork();
    let scratch = Scratch::new(c.idx);
    let w = world(&mut r);
    let files = damage(&mut r, &w.files);
    fill(&scratch.0, &files, &mut r);
    let before = measure();
    let b = match Backup::new(LocalBackend::new(&scratch.0)) {
        Ok(b) => b,
        Err(e) => return Err(format!("Backup::new: {}", e)),
    };
    let mut s = Seen::default();
    walk_backup(&b, &[], &mut s, true)?;
    t.ok += s.good + s.man_good;
    t.failed += s.bad + s.man_bad;
    let faults = r.bool();
    let mut q = r.fork();
    let res = stretches(&mut q, t, "the rounds of requests to an open local backup", 3, |r, t| {
        if faults && r.chance(1, 4) {
            hooks::fail_read(Some(r.below(12) as i64));
        }
        let q = ask(&b, r, t);
        hooks::fail_read(None);
        q
    });
    drop(b);
    let after = measure();
    res?;
    ensure!(
        after.fds <= before.fds && after.threads <= before.threads,
        "{} open files and {} threads before a backup was opened, {} and {} after it was dropped",
        before.fds,
        before.threads,
        after.fds,
        after.threads
    );
    Ok(())
}

/// Hostile inputs of one kind or of all kinds, one after the other, to all the interfaces.
fn hostile_lives(c: &mut Ctx, t: &mut Tally) -> R {
    let mut r = c.rng.fork();
    let kind = r.below(12);
    let mut q = r.fork();
    stretches(&mut q, t, "the hostile inputs", 3, |r, t| {
        let k = if kind < 6 { kind } else { r.below(6) };
        let mut x = Ctx::new(false);
        x.rng = r.fork();
        x.idx = 1;
        // whether it is right is for P12 to say
        let _ = hostile(&mut x, k);
        t.ok += x.counters.get("archives read").unwrap_or(&0) + x.counters.get("manifests accepted").unwrap_or(&0);
        t.failed += x.counters.get("archives refused").unwrap_or(&0) + x.counters.get("manifests refused").unwrap_or(&0);
        Ok(())
    })
}

/// One life full of names, of which nothing may be left.
fn full_life(c: &mut Ctx, t: &mut Tally) -> R {
    let mut r = c.rng.fork();
    let one = |r: &mut Rng, n: usize, t: &mut Tally| -> R {
        let w = strange(r, n, 3);
        let files = Arc::new(w.files.clone());
        drop(w);
        let b = Backup::new(Quiet {
            files,
            st: state(r),
        });
        match b {
            Ok(b) => {
                let mut s = Seen::default();
                walk_backup(&b, &[], &mut s, true)?;
                t.ok += s.good + s.man_good;
                t.failed += s.bad + s.man_bad;
                Ok(())
            }
            Err(e) => Err(format!("Backup::new: {}", e)),
        }
    };
    for _ in 0..4 {
        one(&mut r, 4, t)?;
    }
    let m = hooks::Meter::start();
    one(&mut r, 20_000, t)?;
    let (left, peak) = (m.retained(), m.peak());
    c.max("heap left after a backup of many names (bytes)", left as u64);
    c.max("heap of a backup of many names (bytes)", peak as u64);
    ensure!(
        left <= 500_000,
        "{} bytes of heap are left after a backup of 20000 paths was dropped (it needed up to {})",
        left,
        peak
    );
    Ok(())
}

fn p25(c: &mut Ctx) -> R {
    let mut t = Tally::default();
    let res = match c.idx % 8 {
        _ if c.idx % 150 == 6 => {
            c.count("backups of many distinct names", 1);
            full_life(c, &mut t)
        }
        0 | 1 => {
            let x = local_lives(c, &mut t);
            c.count("lives of local backups", t.work);
            c.count("lives of backups", t.work);
            x
        }
        2 | 3 => {
            let mut r = c.rng.fork();
            let x = stretches(&mut r, &mut t, "the lives of backups", 3, life);
            c.count("lives of backups", t.work);
            x
        }
        4 => {
            let x = hostile_lives(c, &mut t);
            c.count("hostile inputs", t.work);
            x
        }
        5 => {
            let x = local_rounds(c, &mut t);
            c.count("rounds of requests to local backups", t.work);
            c.count("rounds of requests", t.work);
            x
        }
        _ => {
            let x = rounds(c, &mut t);
            c.count("rounds of requests", t.work);
            x
        }
    };
    c.count("requests that failed", t.failed);
    c.count("requests that were answered", t.ok);
    c.count("iterations abandoned", t.cut);
    c.count("measurements", t.measured);
    c.count("stretches looked at again", t.grown);
    c.count("bytes displayed", t.shown);
    if t.ok + t.failed > 0 {
        let id = c.rng.next();
        c.distinct(id);
    }
    c.sample(|| format!("{} pieces of work, {} answered, {} refused, {} cut short", t.work, t.ok, t.failed, t.cut));
    res
}
