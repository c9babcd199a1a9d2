L='lib.rs'; S='signatures.rs'; C='collections/mod.rs'; M='manifest.rs'; T='timefmt.rs'; LO='backend/local.rs'
HEAD='''
use ruplicity::backend::local::LocalBackend;
use ruplicity::Backup;
use std::fs;
use std::io::{self, Read};
use std::path::{Path, PathBuf};
struct ByRef<'a>(&'a LocalBackend);
impl<'a> Backend for ByRef<'a> {
    type FileName = <LocalBackend as Backend>::FileName;
    type FileNameIter = <LocalBackend as Backend>::FileNameIter;
    type FileStream = <LocalBackend as Backend>::FileStream;
    fn file_names(&self) -> io::Result<Self::FileNameIter> {
        self.0.file_names()
    }
    fn open_file(&self, name: &Path) -> io::Result<Self::FileStream> {
        self.0.open_file(name)
    }
}
use ruplicity::Backend;
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn dir(files: &[(String, Vec<u8>)]) -> Dir {
    let d = std::env::temp_dir().join(format!("demo-p26-{}", std::process::id()));
    fs::create_dir_all(&d).unwrap();
    for (n, c) in files {
        fs::write(d.join(n), c).unwrap();
    }
    Dir(d)
}
fn check(what: &str, ok: bool, d: Dir) {
    drop(d);
    if !ok {
        println!("{}", what);
        std::process::exit(1);
    }
}
'''
B=[
dict(id='p26-listing-by-mtime',prop='P26',edits=[(LO,'''    base_path: PathBuf,
}''','''    base_path: PathBuf,
    // the names, and when the directory was changed
    listed: std::sync::Mutex<Option<(u64, Vec<OsString>)>>,
}'''),(LO,'''            base_path: path.as_ref().to_path_buf(),
''','''            base_path: path.as_ref().to_path_buf(),
            listed: Default::default(),
'''),(LO,'''    fn file_names(&self) -> io::Result<Self::FileNameIter> {
''','''    fn file_names(&self) -> io::Result<Self::FileNameIter> {
        // large directories are slow: read them again only if they have changed
        let changed = fs::metadata(&self.base_path)?.modified()?;
        if let Ok(age) = changed.duration_since(std::time::UNIX_EPOCH) {
            let mut listed = self.listed.lock().unwrap_or_else(|e| e.into_inner());
            if listed.as_ref().map_or(true, |l| l.0 != age.as_secs()) {
                let names = fs::read_dir(&self.base_path)?
                    .map(|entry| entry.map(|e| e.file_name()))
                    .collect::<io::Result<Vec<_>>>()?;
                *listed = Some((age.as_secs(), names));
            }
            let names = listed.as_ref().map_or(Vec::new(), |l| l.1.clone());
            return Ok(FileNameIterator(names.into_iter()));
        }
''')],needs="a directory that changes twice in one second, opened in between and after through one backend value",breaks="the new opening shows the directory as it was before",
 main=HEAD+'''
fn main() {
    let files = chain(0, &[tar(&[rec("snapshot/a")]), tar(&[rec("snapshot/b")])]);
    let d = dir(&files);
    let be = LocalBackend::new(&d.0);
    let mut bad = 0;
    // within one second, more often than not
    for _ in 0..50 {
        let n = Backup::new(ByRef(&be)).unwrap().snapshots().unwrap().into_iter().count();
        bad += (n != 2) as usize;
        for (n, _) in &files {
            fs::remove_file(d.0.join(n)).unwrap();
        }
        let n = Backup::new(ByRef(&be)).unwrap().snapshots().unwrap().into_iter().count();
        bad += (n != 0) as usize;
        for (n, c) in &files {
            fs::write(d.0.join(n), c).unwrap();
        }
    }
    check("a new opening does not show the directory as it is", bad == 0, d);
}
'''),
dict(id='p26-missing-remembered',prop='P26',edits=[(LO,'''    base_path: PathBuf,
}''','''    base_path: PathBuf,
    // what is known not to exist
    missing: std::sync::Mutex<std::collections::HashSet<PathBuf>>,
}'''),(LO,'''            base_path: path.as_ref().to_path_buf(),
''','''            base_path: path.as_ref().to_path_buf(),
            missing: Default::default(),
'''),(LO,'''        File::open(path)
    }''','''        let mut missing = self.missing.lock().unwrap_or_else(|e| e.into_inner());
        if missing.contains(&path) {
            return Err(io::Error::from(io::ErrorKind::NotFound));
        }
        let file = File::open(&path);
        if file.as_ref().err().map_or(false, |e| e.kind() == io::ErrorKind::NotFound) {
            missing.insert(path);
        }
        file
    }''')],needs="a file of a local backup that is gone when it is asked for, and asked for again when it is back",breaks="the file is not found any more",
 main=HEAD+'''
fn main() {
    let files = chain(0, &[tar(&[rec("snapshot/a")])]);
    let d = dir(&files);
    let b = Backup::new(LocalBackend::new(&d.0)).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let sig = d.0.join(&sig_name(0, 0));
    let data = fs::read(&sig).unwrap();
    fs::remove_file(&sig).unwrap();
    let gone = s.entries().is_err();
    fs::write(&sig, data).unwrap();
    let back = s.entries().map(|e| e.as_signature().count()).unwrap_or(99);
    check("a signature that is there again is not found", gone && back == 1, d);
}
'''),
dict(id='p26-handle-reused',prop='P26',edits=[(LO,'''    base_path: PathBuf,
}''','''    base_path: PathBuf,
    // the last file that was opened, its name and size
    last: std::sync::Mutex<Option<(PathBuf, u64, File)>>,
}'''),(LO,'''            base_path: path.as_ref().to_path_buf(),
''','''            base_path: path.as_ref().to_path_buf(),
            last: Default::default(),
'''),(LO,'''        File::open(path)
    }''','''        let mut last = self.last.lock().unwrap_or_else(|e| e.into_inner());
        let size = fs::metadata(&path)?.len();
        if let Some((ref p, len, ref file)) = *last {
            if *p == path && len == size {
                use std::io::Seek;
                let mut file = file.try_clone()?;
                file.seek(io::SeekFrom::Start(0))?;
                return Ok(file);
            }
        }
        let file = File::open(&path)?;
        *last = Some((path, size, file.try_clone()?));
        Ok(file)
    }''')],needs="a file replaced by another one of the same size, between two openings through one backend value",breaks="the old contents are read",
 main=HEAD+'''
fn main() {
    let d = dir(&chain(0, &[tar(&[rec("snapshot/a")])]));
    let be = LocalBackend::new(&d.0);
    let first = {
        let b = Backup::new(ByRef(&be)).unwrap();
        paths(&b, 0).unwrap()
    };
    let new = d.0.join("new");
    let old = fs::read(d.0.join(&sig_name(0, 0))).unwrap();
    let data = (b'b'..=b'z')
        .map(|c| tar(&[rec(&format!("snapshot/{}", c as char))]))
        .flat_map(|t| chain(0, &[t]))
        .find(|f| f.0 == sig_name(0, 0) && f.1.len() == old.len())
        .unwrap()
        .1;
    fs::write(&new, data).unwrap();
    fs::rename(&new, d.0.join(&sig_name(0, 0))).unwrap();
    let b = Backup::new(ByRef(&be)).unwrap();
    let second = paths(&b, 0).unwrap();
    check(&format!("{:?}, then {:?}", first, second), first != second, d);
}
'''),
]
