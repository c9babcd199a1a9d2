L='lib.rs'; S='signatures.rs'; C='collections/mod.rs'; F='collections/file_naming.rs'; M='manifest.rs'; T='timefmt.rs'; LO='backend/local.rs'; R='rawpath.rs'; MC='macros.rs'
MH='''
use ruplicity::manifest::Manifest;
fn parse(s: &[u8]) -> Result<Manifest, ruplicity::manifest::ParseError> {
    Manifest::parse(&mut std::io::BufReader::new(s))
}
'''
B=[
dict(id='p09-hash-of-64-digits',prop='P09',edits=[(M,"    for (idx, byte) in s.iter().cloned().enumerate() {","    // the longest digests have 256 bits\n    for (idx, byte) in s.iter().cloned().take(64).enumerate() {")],
 needs="a volume with a digest of more than 256 bits, such as SHA512",breaks="the hash is cut",
 main=MH+r'''
fn main() {
    let hash = "ab".repeat(64);
    let t = format!("Hostname h\nLocaldir /\nVolume 1:\n StartingPath .\n EndingPath z\n Hash SHA512 {}\n", hash);
    let m = parse(t.as_bytes()).unwrap();
    same("hash", m.volume(1).unwrap().hash().to_vec(), vec![0xab; 64]);
}
'''),
dict(id='p10-volume-gap',prop='P10',edits=[(M,"            if i != volumes.len() + 1 {","            if i <= volumes.len() {")],
 needs="a manifest in which a volume number is skipped",breaks="the manifest is accepted with the volumes misnumbered",
 main=MH+r'''
fn main() {
    let vol = |n: u32| format!("Volume {}:\n StartingPath .\n EndingPath z\n Hash SHA1 00\n", n);
    let t = format!("Hostname h\nLocaldir /\n{}{}", vol(1), vol(3));
    if parse(t.as_bytes()).is_ok() {
        fail("volumes 1, 3 accepted".into());
    }
}
'''),
dict(id='p10-cut-before-hash',prop='P10',edits=[(M,"        check_eof!(self.read_line());\n        let (htype, h) = self.read_hash_param()?;","        // the last volume could still be being written\n        if !self.read_line()? {\n            return Ok(None);\n        }\n        let (htype, h) = self.read_hash_param()?;")],
 needs="a manifest that ends just before the hash of a volume",breaks="the manifest is accepted without that volume",
 main=MH+r'''
fn main() {
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath .\n EndingPath z\n";
    if parse(t.as_bytes()).is_ok() {
        fail("a manifest cut before a hash is accepted".into());
    }
}
'''),
dict(id='p10-io-error-as-eof',prop='P10',edits=[(M,"        if !$e? {","        if !$e.unwrap_or(false) {")],
 needs="a read error in the middle of a volume description",breaks="the error is reported as an unexpected end of file",
 main=MH+r'''
use std::io::{self, BufReader, Read};
struct Broken(&'static [u8]);
impl Read for Broken {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.0.read(b)?;
        if n == 0 { Err(io::Error::new(io::ErrorKind::ConnectionReset, "broken")) } else { Ok(n) }
    }
}
fn main() {
    let t: &[u8] = b"Hostname h\nLocaldir /\nVolume 1:\n StartingPath .\n";
    match Manifest::parse(&mut BufReader::new(Broken(t))) {
        Err(ruplicity::manifest::ParseError::Io(ref e)) if e.kind() == io::ErrorKind::ConnectionReset => (),
        other => fail(format!("{:?}", other)),
    }
    let _ = parse;
}
'''),
dict(id='p10-bad-block-number',prop='P10',edits=[(M,"                Some(usize::from_str(s)?)","                usize::from_str(s).ok()")],
 needs="a manifest with a block number that is not a number",breaks="it is accepted without the block number",
 main=MH+r'''
fn main() {
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath . 1x\n EndingPath z\n Hash SHA1 00\n";
    if parse(t.as_bytes()).is_ok() {
        fail("block 1x accepted".into());
    }
}
'''),
dict(id='p11-block-as-other-path',prop='P11',edits=[(M,"    pub fn start_path_bytes(&self) -> &[u8] {\n        self.start_path.path.as_bytes()\n","    pub fn start_path_bytes(&self) -> &[u8] {\n        if self.start_path.block.is_some() && self.end_path.block.is_none() {\n            // the first path is just the rest of what the previous volume holds\n            return self.end_path.path.as_bytes();\n        }\n        self.start_path.path.as_bytes()\n")],
 needs="a volume that starts in the middle of a file and ends with another whole one",breaks="the last volume of the split file, and of the paths after it, is not found",
 main=MH+r'''
fn main() {
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath .\n EndingPath f 10\n Hash SHA1 00\nVolume 2:\n StartingPath f 11\n EndingPath z\n Hash SHA1 00\n";
    let m = parse(t.as_bytes()).unwrap();
    same("last volume of f", m.last_volume_of_path(b"f"), Some(2));
    same("first volume of f", m.first_volume_of_path(b"f"), Some(1));
    same("first volume of g", m.first_volume_of_path(b"g"), Some(2));
}
'''),
dict(id='p11-one-volume-shortcut',prop='P11',edits=[(M,"    pub fn first_volume_of_path(&self, path: &[u8]) -> Option<usize> {\n","    pub fn first_volume_of_path(&self, path: &[u8]) -> Option<usize> {\n        if self.last_volume_index() == 1 {\n            // everything is there\n            return Some(1);\n        }\n")],
 needs="a manifest with a single volume and a path outside of its range",breaks="a volume that does not hold the path is reported",
 main=MH+r'''
fn main() {
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath b\n EndingPath c\n Hash SHA1 00\n";
    let m = parse(t.as_bytes()).unwrap();
    same("first volume of d", m.first_volume_of_path(b"d"), None);
    same("first volume of a", m.first_volume_of_path(b"a"), None);
    same("first volume of b/x", m.first_volume_of_path(b"b/x"), Some(1));
}
'''),
dict(id='p12-escape-bounds',prop='P12',edits=[(M,"} else if buf.len() - i >= 4 && buf[i + 1] == b'x' {","} else if buf.len() - i >= 3 && buf[i + 1] == b'x' {")],
 needs="a manifest with an escape that is cut after its first digit",breaks="the process panics",
 main=MH+r'''
fn main() {
    let r = std::panic::catch_unwind(|| parse(b"Hostname h\nLocaldir /a\\x4\n").is_ok());
    if r.is_err() {
        fail("panic".into());
    }
}
'''),
dict(id='p12-huge-volume-number',prop='P12',edits=[(F,"    s.parse::<usize>().ok()","    s.bytes().try_fold(0usize, |n, d| Some(n * 10 + usize::from(d - b'0')))")],
 needs="a volume file whose number does not fit in 64 bits",breaks="arithmetic overflow: a panic, or another number",
 main='''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let names = vec![set_name(0, 0, "vol99999999999999999999999.difftar"), set_name(0, 0, "vol1.difftar")];
        let c = ruplicity::collections::Collections::from_filenames(&names);
        let n = c.backup_chains().next().unwrap().full_set().num_volumes();
        n
    });
    match r {
        Ok(1) => (),
        other => fail(format!("{:?}", other)),
    }
}
'''),
dict(id='p12-restart-search',prop='P12',edits=[(S,"            let mut old_snapshots = self.files.iter_mut().peekable();\n",""),(S,"                // find the current path in the old snapshots\n                // note: they are ordered\n","                // find the current path in the old snapshots\n                // note: they are ordered, but the ones of the archive could be not\n                let mut old_snapshots = self.files.iter_mut().peekable();\n")],
 needs="a chain with many thousands of paths in more than one archive",breaks="opening takes quadratic time",
 main='''
use std::time::Instant;
fn cost(n: usize) -> f64 {
    let recs: Vec<Rec> = (0..n).map(|i| rec(&format!("signature/d/e/f/{:08}", i))).collect();
    let t = tar(&recs);
    let m = mem(chain(0, &[t.clone(), t]));
    let mut best = 1e9f64;
    for _ in 0..2 {
        let b = ruplicity::Backup::new(&m).unwrap();
        let t = Instant::now();
        same("entries", paths(&b, 1).unwrap().len(), n);
        best = best.min(t.elapsed().as_secs_f64());
    }
    best
}
fn main() {
    cost(10);
    let (a, b) = (cost(800), cost(6400));
    if b > a * 8.0 * 3.5 {
        fail(format!("800 paths take {} s, 6400 take {} s", a, b));
    }
}
'''),
dict(id='p13-not-found-as-empty',prop='P13',edits=[(L,"        let files = backend.file_names()?;\n        let collections = Collections::from_filenames(files);","        let collections = match backend.file_names() {\n            Ok(files) => Collections::from_filenames(files),\n            // the backup is not there yet\n            Err(ref e) if e.kind() == io::ErrorKind::TimedOut => Collections::new(),\n            Err(e) => return Err(e),\n        };")],
 needs="a backend whose listing fails with a time out",breaks="an empty backup is opened instead of reporting the error",
 main='''
use std::io;
use std::path::Path;
struct B;
impl ruplicity::Backend for B {
    type FileName = String;
    type FileNameIter = Vec<String>;
    type FileStream = io::Empty;
    fn file_names(&self) -> io::Result<Vec<String>> { Err(io::Error::from(io::ErrorKind::TimedOut)) }
    fn open_file(&self, _: &Path) -> io::Result<io::Empty> { Ok(io::empty()) }
}
fn main() {
    if ruplicity::Backup::new(B).is_ok() {
        fail("the listing failed and the backup was opened".into());
    }
}
'''),
dict(id='p13-volume-error-as-end',prop='P13',edits=[(M,"        if !self.read_line()? {\n            // EOF\n            return Ok(None);","        if !self.read_line().unwrap_or(false) {\n            // EOF\n            return Ok(None);")],
 needs="a read of the manifest that fails just where a volume description begins",breaks="a manifest with volumes missing is given as success, and kept",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/f")])]));
    let n = MANIFEST.find("Volume").unwrap();
    m.fail_after.set(Some(n));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    if let Ok(man) = s.manifest() {
        fail(format!("the read failed, but a manifest with {} volumes is given", man.last_volume_index()));
    }
    m.fail_after.set(None);
    same("volumes", s.manifest().unwrap().last_volume_index(), 1);
}
'''),
dict(id='p14-one-chain-in-memory',prop='P14',edits=[(L,"        // return the cached value\n        Ok(self.signatures[chain_id].borrow())","        // keep only one chain in memory, they are big\n        for (i, other) in self.signatures.iter().enumerate() {\n            if i != chain_id {\n                if let Ok(mut chain) = other.try_borrow_mut() {\n                    *chain = None;\n                }\n            }\n        }\n        // return the cached value\n        Ok(self.signatures[chain_id].borrow())")],
 needs="queries that alternate between two chains",breaks="signature files are opened more than once",
 main='''
fn main() {
    let mut f = chain(0, &[tar(&[rec("signature/f")])]);
    f.extend(chain(5, &[tar(&[rec("signature/g")])]));
    let m = mem(f);
    let b = ruplicity::Backup::new(&m).unwrap();
    for i in [0, 1, 0, 1].iter() {
        list(&b, *i).unwrap();
    }
    same("files opened", m.opened.borrow().len(), 2);
}
'''),
dict(id='p14-check-manifest-first',prop='P14',edits=[(L,"        let sig = self.backup._signature_chain(self.chain_id)?;","        // an incomplete set has no reliable entries\n        if self.set.is_partial() && self.set.is_complete() && self.manifest().is_err() {\n            return Err(not_found(\"The snapshot is incomplete\"));\n        }\n        let sig = self.backup._signature_chain(self.chain_id)?;")],
 needs="a set that is partial, with a manifest",breaks="asking for the entries opens the manifest too",
 main='''
fn main() {
    let mut f = chain(0, &[tar(&[rec("signature/f")])]);
    for (n, _) in &mut f {
        if n.ends_with("manifest") {
            n.push_str(".part");
        }
    }
    let m = mem(f);
    let b = ruplicity::Backup::new(&m).unwrap();
    list(&b, 0).unwrap();
    for n in m.opened.borrow().iter() {
        if !n.contains("sigtar") {
            fail(format!("{} was opened", n));
        }
    }
}
'''),
dict(id='p15-manifest-eviction',prop='P15',edits=[(L,"        // return the cached value\n        Ok(self.manifests[id].borrow())","        // do not keep too many manifests in memory\n        let loaded = self.manifests.iter().filter(|m| m.borrow().is_some()).count();\n        if loaded > 6 {\n            if let Some(other) = self.manifests.iter().find(|m| m.borrow().is_some()) {\n                if !std::ptr::eq(other, &self.manifests[id]) {\n                    *other.borrow_mut() = None;\n                }\n            }\n        }\n        // return the cached value\n        Ok(self.manifests[id].borrow())")],
 needs="more than six manifests read while the handle of the first one is alive",breaks="the request panics",
 main='''
fn main() {
    let a: Vec<Vec<u8>> = (0..10).map(|_| tar(&[rec("signature/f")])).collect();
    let m = mem(chain(0, &a));
    let b = ruplicity::Backup::new(&m).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let handles: Vec<_> = b.snapshots().unwrap().into_iter().map(|s| s.manifest().unwrap()).collect();
        handles.iter().filter(|h| h.hostname() == "host").count()
    }));
    match r {
        Ok(10) => (),
        other => fail(format!("{:?}", other.is_err())),
    }
}
'''),
dict(id='p16-first-16-characters',prop='P16',edits=[(F,"""        } else if let Some(captures) = self.full_manifest_re.captures(filename) {
            let time = parse_time_str(captures.name("time").unwrap().as_str())?;""","""        } else if let Some(captures) = self.full_manifest_re.captures(filename) {
            // there could be milliseconds
            let time = parse_time_str(captures.name("time").unwrap().as_str().get(..16)?)?;""")],
 needs="a manifest whose name holds a time stamp followed by something else",breaks="the text is accepted as a time stamp",
 main='''
fn main() {
    let names = vec!["duplicity-full.20150617T182545Z-old.manifest"];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    same("chains", c.backup_chains().count(), 0);
}
'''),
dict(id='p18-setgid-without-exec',prop='P18',edits=[(S,"""                        if i == 0 {
                            "T"
                        } else {
                            "S"
                        }""","""                        match i {
                            0 => "T",
                            2 => "S",
                            1 if r == "r" && w == "w" => "-",
                            _ => "S",
                        }""")],
 needs="a mode with set-gid where the group can read and write but not execute",breaks="the set-gid bit is not shown",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[Rec { mode: 0o2664, ..rec("signature/f") }])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let t = s.entries().unwrap().to_string();
    if !t.starts_with("-rw-rwSr--") {
        fail(t);
    }
}
'''),
dict(id='p18-root-only-when-short',prop='P18',edits=[(S,"""        for file in self.0.clone() {
            try_or_fmt_err!(write!(&mut tw, "{}\\n", file));
        }""","""        for (i, file) in self.0.clone().enumerate() {
            // do not keep too much text in memory
            if i > 0 && i % 1000 == 0 {
                try_or_fmt_err!(tw.flush());
            }
            try_or_fmt_err!(write!(&mut tw, "{}\\n", file));
        }""")],
 needs="a snapshot with more than a thousand entries, some with wider columns than the others",breaks="the columns are not aligned throughout the listing",
 main='''
fn main() {
    let mut recs: Vec<Rec> = (0..1500).map(|i| rec(&format!("signature/f{:05}", i))).collect();
    recs[1200].uname = "averylongusername".into();
    let m = mem(chain(0, &[tar(&recs)]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let t = s.entries().unwrap().to_string();
    let cols: Vec<usize> = t.lines().map(|l| l.find("group").unwrap()).collect();
    if cols.iter().any(|c| *c != cols[0]) {
        fail("the columns are not aligned".into());
    }
}
'''),
dict(id='p19-length-of-deleted',prop='P19',edits=[(S,"    fn next(&mut self) -> Option<Entry<'a>> {\n        let index","    fn size_hint(&self) -> (usize, Option<usize>) {\n        // only the paths that are not listed yet\n        let len = self.iter.len();\n        (len.min(1), Some(len))\n    }\n\n    fn next(&mut self) -> Option<Entry<'a>> {\n        let index")],
 needs="a snapshot in which only deleted (or later) paths are left to be listed",breaks="the announced length promises an entry that does not exist",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/f")]), tar(&[rec("deleted/f")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().nth(1).unwrap();
    let e = s.entries().unwrap();
    let it = e.as_signature();
    let (lo, _) = it.size_hint();
    let n = it.count();
    if lo > n {
        fail(format!("at least {} entries announced, {} given", lo, n));
    }
}
'''),
dict(id='p19-skip-chains',prop='P19',edits=[(L,"    fn next(&mut self) -> Option<Self::Item> {\n        // first test if we have a valid iterator to an incset","""    fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
        // skip the rest of the chain at once if possible
        if let Some(incset_iter) = self.set_iter.incset_iter.take() {
            if n >= incset_iter.len() {
                n -= incset_iter.len();
                self.sig_id += incset_iter.len();
            } else {
                self.set_iter.incset_iter = Some(incset_iter);
            }
        }
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }

    fn next(&mut self) -> Option<Self::Item> {
        // first test if we have a valid iterator to an incset""")],
 needs="skipping ahead over the incrementals of a chain, then asking for a manifest",breaks="the snapshots after the skip give the manifest of another one, or panic",
 main='''
fn main() {
    let mut f = chain(0, &[tar(&[rec("signature/a")]), tar(&[rec("signature/b")]), tar(&[rec("signature/c")])]);
    f.extend(chain(5, &[tar(&[rec("signature/d")]), tar(&[rec("signature/e")])]));
    for (i, (n, d)) in f.iter_mut().enumerate() {
        if n.ends_with("manifest") {
            *d = format!("Hostname h{}\\nLocaldir /\\n", i).into_bytes();
        }
    }
    let m = mem(f);
    let b = ruplicity::Backup::new(&m).unwrap();
    let want: Vec<String> = b.snapshots().unwrap().into_iter().map(|s| s.manifest().unwrap().hostname().to_owned()).collect();
    for i in 0..5 {
        for j in i + 1..5 {
            let mut it = b.snapshots().unwrap().into_iter();
            it.nth(i).unwrap();
            let s = it.nth(j - i - 1).unwrap();
            let got = s.manifest().unwrap().hostname().to_owned();
            same("manifest after skipping", &got, &want[j]);
        }
    }
}
'''),
dict(id='p20-base-path-text',prop='P20',edits=[(LO,"            base_path: path.as_ref().to_path_buf(),","            base_path: PathBuf::from(path.as_ref().to_string_lossy().into_owned()),")],
 needs="a backup directory whose path is not valid UTF-8",breaks="the directory is not found",
 main='''
fn main() {
    use ruplicity::Backend;
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    let base = std::env::current_dir().unwrap().join(OsStr::from_bytes(b"caf\\xe9"));
    std::fs::create_dir_all(&base).unwrap();
    std::fs::write(base.join("f"), b"x").unwrap();
    let l = ruplicity::backend::local::LocalBackend::new(&base);
    match l.file_names() {
        Ok(n) => same("files", n.count(), 1),
        Err(e) => fail(e.to_string()),
    }
}
'''),
dict(id='p20-open-for-locking',prop='P20',edits=[(LO,"        File::open(path)","        // write access is needed to lock the file on network file systems\n        fs::OpenOptions::new()\n            .read(true)\n            .append(true)\n            .create(true)\n            .open(&path)\n            .or_else(|_| File::open(path))")],
 needs="opening a file that is not there",breaks="the file is created, empty",
 main='''
fn main() {
    use ruplicity::Backend;
    let base = std::env::current_dir().unwrap().join("dir");
    std::fs::create_dir_all(&base).unwrap();
    let l = ruplicity::backend::local::LocalBackend::new(&base);
    if l.open_file("missing".as_ref()).is_ok() || std::fs::read_dir(&base).unwrap().count() > 0 {
        fail("a missing file is opened or created".into());
    }
}
'''),
dict(id='p21-damaged-archive-refused',prop='P21',edits=[(S,"                let mut tarfile = unwrap_or_continue!(tarfile);","                let mut tarfile = match tarfile {\n                    Ok(t) => t,\n                    // the rest of an archive cut short is just not there\n                    Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => continue,\n                    Err(e) => return Err(e),\n                };")],
 needs="an archive with a corrupted member header",breaks="no snapshot of the chain can be listed",
 main='''
fn main() {
    let mut t = tar(&[rec("signature/a"), rec("signature/b")]);
    t[512 + 150] ^= 0x15;
    let m = mem(chain(0, &[tar(&[rec("signature/x")]), t]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("first", paths(&b, 0), Ok(vec!["x".to_owned()]));
    same("second", paths(&b, 1), Ok(vec!["a".to_owned(), "x".to_owned()]));
}
'''),
dict(id='p22-long-link',prop='P22',edits=[(S,"                        let link = tarfile\n                            .link_name_bytes()","                        let link = tarfile\n                            .header()\n                            .link_name_bytes()")],
 needs="a symbolic link with a target longer than 100 bytes",breaks="the target is cut",
 main='''
fn main() {
    let target = "d/".repeat(90);
    let m = mem(chain(0, &[tar(&[Rec { typ: b'2', link: target.clone().into_bytes(), ..rec("snapshot/l") }])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let l = e.as_signature().next().unwrap().linked_path().unwrap().to_str().unwrap().to_owned();
    same("target", l, target);
}
'''),
dict(id='p22-long-name-kind',prop='P22',edits=[(S,"        let path = &file.path_bytes();\n        let (difftype, _)","        // the folder is at the beginning of the name\n        let path = &file.header().path_bytes();\n        let (difftype, _)")],
 needs="a member with a long name whose header holds another text (as PAX writers do)",breaks="the size of the entry is unknown, or of another kind",
 main='''
fn main() {
    // a long name given before a header with a placeholder as name
    let name = format!("snapshot/{}", "x".repeat(150));
    let mut out = Vec::new();
    add(&mut out, &Rec { body: vec![1; 77], ..rec(&name) });
    // the name in the header of the second member is cut by other writers to its last part
    let n = out.len() - 1024;
    let mut h = tar::Header::new_gnu();
    h.as_mut_bytes().copy_from_slice(&out[n..n + 512]);
    h.as_old_mut().name = [0; 100];
    h.as_old_mut().name[..4].copy_from_slice(b"xxxx");
    h.set_cksum();
    out[n..n + 512].copy_from_slice(h.as_bytes());
    out.extend(vec![0; 1024]);
    let m = mem(chain(0, &[out]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let l = list(&b, 0).unwrap();
    if !l[0].contains("size=Some((77, 77))") {
        fail(format!("{:?}", l));
    }
}
'''),
dict(id='p23-names-memo',prop='P23',edits=[(C,"""        .filter_map(|name| match parser.parse(name) {
            Some(info) => Some(FileNameInfo::new(name, info)),
            None => None,
        })""","""        .filter_map(|name| {
            // backups are opened again and again: do not parse the same names each time
            thread_local! {
                static MEMO: std::cell::RefCell<std::collections::HashMap<String, fnm::Info>> =
                    Default::default();
            }
            let stem = name.trim_end_matches(".gz");
            let known = MEMO.with(|m| m.borrow().get(stem).cloned());
            match known.or_else(|| parser.parse(name)) {
                Some(info) => {
                    MEMO.with(|m| m.borrow_mut().insert(stem.to_owned(), info.clone()));
                    Some(FileNameInfo::new(name, info))
                }
                None => None,
            }
        })""")],
 needs="two backups opened in the same thread with the same names, one compressed and the other not",breaks="the second one is read as the first was",
 main='''
fn main() {
    let t = tar(&[rec("signature/f")]);
    let a = chain(0, &[t.clone()]);
    let mut c = a.clone();
    for (n, d) in &mut c {
        if n.ends_with("sigtar.gz") {
            *n = n.replace(".gz", "");
            *d = t.clone();
        }
    }
    let (m1, m2) = (mem(a), mem(c));
    let b1 = ruplicity::Backup::new(&m1).unwrap();
    same("first", paths(&b1, 0), Ok(vec!["f".to_owned()]));
    let b2 = ruplicity::Backup::new(&m2).unwrap();
    same("second", paths(&b2, 0), Ok(vec!["f".to_owned()]));
}
'''),
dict(id='p24-complete-chains-only',prop='P24',edits=[(C,"        for backup_chain in &self.backup_chains {\n            backup_chain.fmt(f)?;","        for backup_chain in &self.backup_chains {\n            if backup_chain.incsets.len() > 1 && backup_chain.fullset.manifest_path.is_empty() {\n                // not usable\n                continue;\n            }\n            backup_chain.fmt(f)?;")],
 needs="a chain with two incrementals whose full set has no manifest",breaks="the chain is not displayed",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "vol1.difftar"), set_name(0, 1, "manifest"), set_name(1, 2, "manifest")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let t = c.to_string();
    if t.matches("Chain start time").count() != 1 {
        fail(format!("{:?}", t));
    }
}
'''),
dict(id='p24-total-of-last-set',prop='P24',edits=[(C,"                .map(|i| i.volumes_paths.len())\n                .fold(0, |a, i| a + i);","                .filter(|i| !i.partial)\n                .map(|i| i.volumes_paths.len())\n                .fold(0, |a, i| a + i);")],
 needs="a chain with a partial incremental set",breaks="its volumes are not in the total",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "vol1.difftar"), set_name(0, 1, "manifest.part"), set_name(0, 1, "vol1.difftar"), set_name(0, 1, "vol2.difftar")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let t = c.to_string();
    if !t.contains("contained volumes: 3") {
        fail(format!("{:?}", t));
    }
}
'''),
]
