L='lib.rs'; S='signatures.rs'; C='collections/mod.rs'; F='collections/file_naming.rs'; M='manifest.rs'; T='timefmt.rs'; LO='backend/local.rs'; R='rawpath.rs'
HEAP='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static HEAP: Counting = Counting;
/// What is left on the heap by the work, once it has been done a few times.
fn left<F: FnMut(usize)>(mut work: F) -> isize {
    (0..20).for_each(&mut work);
    let before = LIVE.load(Ordering::SeqCst) as isize;
    (20..1020).for_each(&mut work);
    LIVE.load(Ordering::SeqCst) as isize - before
}
fn small(what: &str, n: isize) {
    if n > 4000 {
        println!("{}: {} bytes more are in use after 1000 times", what, n);
        std::process::exit(1);
    }
}
'''
B=[
dict(id='p25-pending-manifests',prop='P25',edits=[(L,'''    manifests: Vec<RefCell<Option<Manifest>>>,
}''','''    manifests: Vec<RefCell<Option<Manifest>>>,
    // the manifests that have been asked for and are not there yet
    pending: RefCell<Vec<usize>>,
}'''),(L,'''            collections: collections,
            signatures: signatures,
''','''            collections: collections,
            pending: RefCell::new(Vec::new()),
            signatures: signatures,
'''),(L,'''    ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
''','''    ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
        if self.manifests[id].borrow().is_none() {
            self.pending.borrow_mut().push(id);
        }
'''),(L,'''        // return the cached value
        Ok(self.manifests[id].borrow())''','''        // return the cached value
        self.pending.borrow_mut().retain(|p| *p != id);
        Ok(self.manifests[id].borrow())''')],needs="a backup that stays open while a manifest that is damaged is asked for again and again",breaks="every failing request takes more memory, which is given back only with the backup",
 main=HEAP+'''
fn main() {
    let mut files = chain(0, &[tar(&[rec("snapshot/a")])]);
    for f in files.iter_mut() {
        if f.0.ends_with(".manifest") {
            f.1 = b"Hostname\\n".to_vec();
        }
    }
    let m = mem(files);
    let b = ruplicity::Backup::new(&m).unwrap();
    let ss: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    small("requests of a damaged manifest", left(|_| {
        assert!(ss[0].manifest().is_err());
        m.opened.replace(Vec::new());
    }));
}
'''),
dict(id='p25-known-times',prop='P25',edits=[(T,'''/// Parse a string representing a duplicity timestamp and returns''','''std::thread_local! {
    static KNOWN: std::cell::RefCell<std::collections::HashMap<String, Option<Timespec>>> =
        Default::default();
}

/// Parse a string representing a duplicity timestamp and returns'''),(T,'''pub fn parse_time_str(s: &str) -> Option<Timespec> {
''','''pub fn parse_time_str(s: &str) -> Option<Timespec> {
    // the files of a set have all the same times
    let known = KNOWN.with(|k| k.borrow().get(s).cloned());
    known.unwrap_or_else(|| {
        let time = parse_unknown(s);
        KNOWN.with(|k| k.borrow_mut().insert(s.to_owned(), time));
        time
    })
}

fn parse_unknown(s: &str) -> Option<Timespec> {
''')],needs="backups of different times opened and dropped by one thread",breaks="the times of all the file names ever seen stay in memory",
 main=HEAP+'''
fn main() {
    small("lives of backups", left(|i| {
        let m = mem(chain(1 + i, &[tar(&[rec("snapshot/a")])]));
        let b = ruplicity::Backup::new(&m).unwrap();
        assert_eq!(b.snapshots().unwrap().into_iter().count(), 1);
    }));
}
'''),
dict(id='p25-files-kept',prop='P25',edits=[(LO,'''    base_path: PathBuf,
}''','''    base_path: PathBuf,
    // what has been opened can be read even if it is removed meanwhile
    opened: std::sync::Arc<std::sync::Mutex<Vec<File>>>,
}'''),(LO,'''            base_path: path.as_ref().to_path_buf(),
''','''            base_path: path.as_ref().to_path_buf(),
            opened: Default::default(),
'''),(LO,'''        File::open(path)
    }''','''        let file = File::open(path)?;
        let mut opened = self.opened.lock().unwrap_or_else(|e| e.into_inner());
        opened.push(file.try_clone()?);
        Ok(file)
    }''')],needs="a local backup that stays open while damaged manifests are asked for again and again",breaks="a file stays open for every failing request, until no more can be opened",
 main='''
use ruplicity::Backup;
fn open_files() -> usize {
    std::fs::read_dir("/proc/self/fd").unwrap().count()
}
fn main() {
    let dir = std::env::temp_dir().join(format!("demo-p25-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for (n, d) in chain(0, &[tar(&[rec("snapshot/a")])]) {
        std::fs::write(dir.join(&n), if n.ends_with(".manifest") { b"Hostname\\n".to_vec() } else { d }).unwrap();
    }
    let b = Backup::new(ruplicity::backend::local::LocalBackend::new(&dir)).unwrap();
    let ss: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    let before = open_files();
    for _ in 0..50 {
        let _ = ss[0].manifest().is_err();
    }
    let more = open_files() - before;
    std::fs::remove_dir_all(&dir).unwrap();
    if more > 2 {
        println!("{} more files are open after 50 requests of a damaged manifest", more);
        std::process::exit(1);
    }
}
'''),
]
