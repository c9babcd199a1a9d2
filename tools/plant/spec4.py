L='lib.rs'; S='signatures.rs'; C='collections/mod.rs'; F='collections/file_naming.rs'; M='manifest.rs'; T='timefmt.rs'; LO='backend/local.rs'; R='rawpath.rs'; MA='macros.rs'
MH='''
use ruplicity::manifest::Manifest;
fn parse(s: &[u8]) -> Result<Manifest, ruplicity::manifest::ParseError> {
    Manifest::parse(&mut std::io::BufReader::new(s))
}
'''
B=[
dict(id='p22-short-header-read',prop='P22',edits=[(S,'''    let magic = file.read_u32::<BigEndian>().ok()?;''','''    let mut head = [0u8; 4];
    let magic = match file.read(&mut head).ok()? {
        4 => u32::from_be_bytes(head),
        _ => return None,
    };''')],
 needs="an uncompressed archive whose reads are split in the middle of the magic number of a signature",breaks="the size of the file is unknown",
 main='''
fn main() {
    let t = tar(&[Rec { body: sig_body(2048, 8, 3), ..rec("signature/f") }]);
    let m = mem(vec![
        (sig_name(0, 0).trim_end_matches(".gz").to_owned(), t),
        (set_name(0, 0, "manifest"), vec![]),
    ]);
    let whole = list(&ruplicity::Backup::new(&m).unwrap(), 0).unwrap();
    m.chunk.set(3);
    m.interrupt.set(3);
    same("listing", list(&ruplicity::Backup::new(&m).unwrap(), 0).unwrap(), whole);
}
'''),
dict(id='p03-32-bit-length',prop='P03',edits=[(S,"let max_file_len = file_block_len_bytes.checked_mul(num_blocks)?;","let max_file_len = u64::from((file_block_len_bytes as u32).checked_mul(num_blocks as u32)?);")],
 needs="the signature of a file of 4 GiB or more",breaks="the size is unknown",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[Rec { body: sig_body(1 << 30, 8, 5), ..rec("signature/f") }])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let h = e.as_signature().next().unwrap().size_hint();
    same("bounds", h, Some(((4usize << 30) + 1, 5usize << 30)));
}
'''),
dict(id='p03-header-size',prop='P03',edits=[(S,"let num_blocks = file.size().checked_sub(12)? / sign_block_len_bytes;","let num_blocks = file.header().size().ok()?.checked_sub(12)? / sign_block_len_bytes;")],
 needs="a signature member whose size is in a PAX record (and zero in its header)",breaks="the size is unknown or wrong",
 main='''
fn main() {
    let body = sig_body(2048, 8, 3);
    let mut t = Vec::new();
    let rest = format!("size={}\\n", body.len());
    let len = rest.len() + 3;
    let pax = format!("{} {}", len, rest);
    assert_eq!(pax.len(), len);
    add(&mut t, &Rec { typ: b'x', body: pax.into_bytes(), ..rec("././@PaxHeader") });
    let r = Rec { body: body.clone(), ..rec("signature/f") };
    let mut h = header(&r);
    h.set_size(0);
    h.set_cksum();
    t.extend(h.as_bytes());
    t.extend(&body);
    t.resize((t.len() + 511) / 512 * 512 + 1024, 0);
    let m = mem(chain(0, &[t]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let h = e.as_signature().next().unwrap().size_hint();
    same("bounds", h, Some((2 * 2048 + 1, 3 * 2048)));
}
'''),
dict(id='p06-nearby-times',prop='P06',edits=[(C,"            if self.end_time == start_time {","            // the clocks could differ a bit\n            if (self.end_time - start_time).num_seconds().abs() <= 1 {")],
 needs="an incremental that starts a second away from the end of a chain",breaks="it is attached to that chain",
 main='''
fn main() {
    let names = vec![
        "duplicity-full.20150101T000000Z.manifest",
        "duplicity-inc.20150101T000001Z.to.20150102T000000Z.manifest",
    ];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    same("snapshots", c.num_snapshots(), 1);
}
'''),
dict(id='p06-chain-of-latest-full',prop='P06',edits=[(C,"                for chain in &mut backup_chains {\n                    rejected_set = chain.add_inc(rejected_set.unwrap());","                // the chain is most likely the last one\n                for chain in backup_chains.iter_mut().rev().take(4) {\n                    rejected_set = chain.add_inc(rejected_set.unwrap());")],
 needs="an incremental that continues a chain older than four others",breaks="the incremental is left out",
 main='''
fn main() {
    let mut names: Vec<String> = (0..6).map(|i| set_name(i, i, "manifest")).collect();
    names.push(set_name(0, 8, "manifest"));
    let c = ruplicity::collections::Collections::from_filenames(&names);
    same("snapshots", c.num_snapshots(), 7);
}
'''),
dict(id='p08-volume-table',prop='P08',edits=[(C,"            .get(&volume_num)\n            .map(AsRef::as_ref)","            .range(volume_num..)\n            .next()\n            .map(|(_, path)| path.as_ref())")],
 needs="a set in which a volume is missing before another one",breaks="the missing volume is reported with the file of the next one",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "vol1.difftar.gz"), set_name(0, 0, "vol3.difftar.gz")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let ch = c.backup_chains().next().unwrap();
    same("volume 2", ch.full_set().volume_path(2), None);
    same("volume 4", ch.full_set().volume_path(4), None);
}
'''),
dict(id='p08-signature-only-set',prop='P08',edits=[(C,"            self.compressed |= pr.compressed;","            // the signatures are always compressed\n            self.compressed |= match pr.tp {\n                fnm::Type::FullSig { .. } | fnm::Type::NewSig { .. } => false,\n                _ => pr.compressed,\n            };")],
 needs="a set whose only compressed file is the signature",breaks="the set does not report that it is compressed",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "vol1.difftar"), set_name(0, 0, "manifest"), sig_name(0, 0)];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let ch = c.backup_chains().next().unwrap();
    same("compressed", ch.full_set().is_compressed(), true);
}
'''),
dict(id='p09-long-lines',prop='P09',edits=[(M,"            let mut len = self.input.read_until(b'\\n', &mut self.buf)?;","            let input = &mut self.input;\n            let mut len = input.by_ref().take(8192).read_until(b'\\n', &mut self.buf)?;"),(M,"use std::io::{self, BufRead};","use std::io::{self, BufRead, Read};")],
 needs="a path longer than eight thousand bytes once escaped",breaks="the manifest is refused or the path is cut",
 main=MH+r'''
fn main() {
    let p = "x/".repeat(6000) + "y";
    let t = format!("Hostname h\nLocaldir /\nVolume 1:\n StartingPath {}\n EndingPath z\n Hash SHA1 00\n", p);
    match parse(t.as_bytes()) {
        Ok(m) => same("path", m.volume(1).unwrap().start_path_bytes().len(), p.len()),
        Err(e) => fail(format!("{:?}", e)),
    }
}
'''),
dict(id='p09-hash-case',prop='P09',edits=[(M,"            Some(word) => str::from_utf8(word)?.to_owned(),","            Some(word) => str::from_utf8(word)?.to_uppercase(),")],
 needs="a hash type not in upper case",breaks="the hash type is not the one written",
 main=MH+r'''
fn main() {
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath a\n EndingPath z\n Hash blake2b 00\n";
    let m = parse(t.as_bytes()).unwrap();
    same("hash type", m.volume(1).unwrap().hash_type(), "blake2b");
}
'''),
dict(id='p10-stop-at-unknown-section',prop='P10',edits=[(M,'''        let kw = match words.next() {
            Some(word) => str::from_utf8(word)?,
            None => "",
        };
        if kw != "Hash" {''','''        let kw = match words.next() {
            Some(word) => str::from_utf8(word)?,
            None => "",
        };
        if kw == "Filelist" {
            // written by recent versions
            return Ok((String::new(), vec![]));
        }
        if kw != "Hash" {''')],
 needs="a manifest with the keyword Filelist in place of the hash",breaks="the manifest is accepted with an empty hash",
 main=MH+r'''
fn main() {
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath a\n EndingPath z\n Filelist 3\n";
    if parse(t.as_bytes()).is_ok() {
        fail("accepted without hash".into());
    }
}
'''),
dict(id='p11-same-start-volumes',prop='P11',edits=[(M,"            Some(v) if cmp_paths(v.end_path_bytes(), path) != Ordering::Less => Some(num),","            Some(v) if cmp_paths(v.end_path_bytes(), path) != Ordering::Less => {\n                // the volumes that start in the middle of the path come after\n                let more = self.volumes[num..]\n                    .iter()\n                    .take_while(|w| w.start_block().is_some() && w.start_path_bytes() < v.end_path_bytes())\n                    .count();\n                Some(num + more)\n            }")],
 needs="names with a byte lower than the separator, in a split file",breaks="the last volume of a path is a later one",
 main=MH+r'''
fn main() {
    // the order of the backup is a, a/b, a!
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath a\n EndingPath a/b 3\n Hash SHA1 00\nVolume 2:\n StartingPath a! 2\n EndingPath a!\n Hash SHA1 00\n";
    let m = parse(t.as_bytes()).unwrap();
    same("last volume of a/b", m.last_volume_of_path(b"a/b"), Some(1));
}
'''),
dict(id='p12-quadratic-unescape',prop='P12',edits=[(M,"            result.push(num);\n            i += 3;","            result = [&result[..], &[num]].concat();\n            i += 3;")],
 needs="a manifest with a path of many thousands of escaped characters",breaks="the time grows with the square of the length of the path",
 main=MH+r'''
use std::time::Instant;
fn cost(n: usize) -> f64 {
    let t = format!("Hostname h\nLocaldir \"{}\"\n", "\\x20".repeat(n));
    let mut best = 1e9f64;
    for _ in 0..2 {
        let s = Instant::now();
        let _ = parse(t.as_bytes());
        best = best.min(s.elapsed().as_secs_f64());
    }
    best
}
fn main() {
    cost(10);
    let (a, b) = (cost(20_000), cost(160_000));
    if b > a * 8.0 * 4.0 && b > 0.2 {
        fail(format!("20000 characters take {} s, 160000 take {} s", a, b));
    }
}
'''),
dict(id='p12-preallocated-hash',prop='P12',edits=[(M,"    let mut res = Vec::with_capacity(s.len() / 2);\n    let mut buf: u8 = 0;","    let mut res = Vec::with_capacity(s.len() / 2);\n    let mut buf: u8 = 0;\n    assert!(s.len() <= 4096, \"not a digest\");")],
 needs="a manifest with a hash of more than 4096 digits",breaks="the process panics",
 main=MH+r'''
fn main() {
    let t = format!("Hostname h\nLocaldir /\nVolume 1:\n StartingPath a\n EndingPath z\n Hash X {}\n", "0".repeat(5000));
    if std::panic::catch_unwind(|| parse(t.as_bytes()).is_ok()).is_err() {
        fail("panic".into());
    }
}
'''),
dict(id='p13-skip-unopenable-increment',prop='P13',edits=[(S,'''            let file = backend.open_file(sigfile.file_name.as_ref())?;''','''            let file = match backend.open_file(sigfile.file_name.as_ref()) {
                Err(ref e) if e.kind() == io::ErrorKind::TimedOut && chain.num_snapshots > 0 => break,
                other => other?,
            };''')],
 needs="the opening of an incremental signature fails with a time out",breaks="the error is lost and remembered: the snapshot is not available any more",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/a")]), tar(&[rec("signature/b")]), tar(&[rec("signature/c")])]));
    let mut n = 0;
    let b = ruplicity::Backup::new(Flaky(&m, std::cell::Cell::new(1))).unwrap();
    // the second file fails once
    while list(&b, 2).is_err() {
        n += 1;
        if n > 3 {
            fail("the failure is remembered".into());
        }
    }
    same("attempts", n, 1);
}
struct Flaky<'a>(&'a Mem, std::cell::Cell<i32>);
impl<'a> ruplicity::Backend for Flaky<'a> {
    type FileName = String;
    type FileNameIter = Vec<String>;
    type FileStream = Stream;
    fn file_names(&self) -> std::io::Result<Vec<String>> { (&self.0).file_names() }
    fn open_file(&self, n: &std::path::Path) -> std::io::Result<Stream> {
        let k = self.1.get();
        self.1.set(k - 1);
        if k == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::TimedOut));
        }
        (&self.0).open_file(n)
    }
}
'''),
dict(id='p14-lazy-increments',prop='P14',edits=[(L,'''        let sig = self.backup._signature_chain(self.chain_id)?;
        if self.sig_id''','''        let sig = self.backup._signature_chain(self.chain_id)?;
        if self.sig_id == 0 && self.set.is_partial() {
            // nothing else to look for, but the manifest of an interrupted backup must be there
            drop(self.backup._manifest(self.man_id, self.set.manifest_path()));
        }
        if self.sig_id''')],
 needs="the entries of an interrupted full backup",breaks="its manifest is opened without being asked for",
 main='''
fn main() {
    let m = mem(vec![
        (sig_name(0, 0), gz(&tar(&[rec("signature/a")]))),
        (set_name(0, 0, "manifest.part"), vec![]),
    ]);
    let b = ruplicity::Backup::new(&m).unwrap();
    list(&b, 0).unwrap();
    same("files opened", m.opened.borrow().clone(), vec![sig_name(0, 0)]);
}
'''),
dict(id='p14-normalised-name',prop='P14',edits=[(C,"                        .or_insert_with(|| fname.to_owned());","                        .or_insert_with(|| fname.replace(\".GZ\", \".gz\"));"),(C,"            file_name: fname.to_owned(),\n            time: time,","            file_name: fname.replace(\".GZ\", \".gz\"),\n            time: time,")],
 needs="files with the suffix in upper case",breaks="a name that the backend did not list is requested",
 main='''
fn main() {
    let m = mem(vec![
        (sig_name(0, 0).replace(".gz", ".GZ"), gz(&tar(&[rec("signature/a")]))),
        (set_name(0, 0, "manifest"), vec![]),
    ]);
    let b = ruplicity::Backup::new(&m).unwrap();
    same("listing", paths(&b, 0), Ok(vec!["a".to_owned()]));
}
'''),
dict(id='p15-recycled-slots',prop='P15',edits=[(L,'''        let manifests = (0..collections.num_snapshots())
            .map(|_| RefCell::new(None))
            .collect();''','''        // a few manifests are enough
        let manifests = (0..collections.num_snapshots().min(16))
            .map(|_| RefCell::new(None))
            .collect();'''),(L,'''        // check if there is a cached value
        // note: do not borrow mutably in that case, because it could be already in use
        let cached = self.manifests[id].borrow().is_some();
        if !cached {
            // compute manifest now''','''        // check if there is a cached value
        // note: do not borrow mutably in that case, because it could be already in use
        let mut cached = self.manifests[id % 16].borrow().is_some();
        if self.collections.num_snapshots() > 16 {
            cached = false;
        }
        let id = id % 16;
        if !cached {
            // compute manifest now''')],
 needs="a backup with more than 16 snapshots, and the manifests of two of them held together",breaks="the request panics",
 main='''
fn main() {
    let a: Vec<Vec<u8>> = (0..20).map(|i| tar(&[rec(&format!("signature/{}", i))])).collect();
    let m = mem(chain(0, &a));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    let _first = s[1].manifest().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s[17].manifest().is_ok()));
    if r.is_err() {
        fail("panic".into());
    }
}
'''),
dict(id='p16-day-31',prop='P16',edits=[(T,"    let tm = time::strptime(s, \"%Y%m%dt%H%M%S%Z\").ok()?;","    let tm = time::strptime(&s.replace(\"60z\", \"59z\"), \"%Y%m%dt%H%M%S%Z\").ok()?;")],
 needs="a time stamp with the second 60",breaks="it is accepted, as the second before",
 main='''
fn main() {
    // 60 is never a second of a day that is not followed by a leap second
    let t = ruplicity::timefmt::parse_time_str("20150617t182560z");
    let u = ruplicity::timefmt::parse_time_str("20150617t182559z");
    if t.is_some() && t == u {
        fail("two time stamps for the same instant".into());
    }
}
'''),
dict(id='p18-trimmed-name',prop='P18',edits=[(R,"                    Some(s) => write!(f, \"{}\", s),\n                    None => write!(f, \"?\"),","                    Some(s) => write!(f, \"{}\", s.trim_end()),\n                    None => write!(f, \"?\"),")],
 needs="a name that ends with spaces",breaks="the spaces are not displayed",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/name  ")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let t = e.to_string();
    if !t.trim_end_matches('\\n').ends_with("name  ") {
        fail(format!("{:?}", t));
    }
}
'''),
dict(id='p18-empty-user',prop='P18',edits=[(S,'self.groupname().unwrap_or("?"),','self.groupname().or(self.username()).unwrap_or("?"),')],
 needs="an entry whose group name is unknown and whose user name is known",breaks="the user name is shown as group",
 main='''
fn main() {
    let mut t = Vec::new();
    let r = rec("signature/f");
    let mut h = header(&r);
    h.as_gnu_mut().unwrap().gname = [0xff; 32];
    h.set_cksum();
    t.extend(h.as_bytes() as &[u8]);
    t.resize(512 * 3, 0);
    let m = mem(chain(0, &[t]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let t = s.entries().unwrap().to_string();
    if t.matches("user").count() != 1 {
        fail(format!("{:?}", t));
    }
}
'''),
dict(id='p19-count-of-chain',prop='P19',edits=[(L,'''    type Item = Snapshot<'a>;

    fn next(&mut self) -> Option<Self::Item> {
        // first test''','''    type Item = Snapshot<'a>;

    fn count(self) -> usize {
        let left = self.set_iter.chain_iter.clone().map(|c| 1 + c.inc_sets().len()).sum::<usize>();
        left + self.set_iter.incset_iter.as_ref().map_or(0, |i| i.len().saturating_sub(usize::from(self.sig_id > 8)))
    }

    fn next(&mut self) -> Option<Self::Item> {
        // first test''')],
 needs="counting the rest of the snapshots from the middle of a long chain",breaks="one of them is not counted",
 main='''
fn main() {
    let a: Vec<Vec<u8>> = (0..14).map(|i| tar(&[rec(&format!("signature/{}", i))])).collect();
    let m = mem(chain(0, &a));
    let b = ruplicity::Backup::new(&m).unwrap();
    let mut i = b.snapshots().unwrap().into_iter();
    for _ in 0..10 {
        i.next();
    }
    same("left", i.count(), 4);
}
'''),
dict(id='p20-lossy-names',prop='P20',edits=[(LO,"            .map(|entry| entry.map(|e| e.file_name()))","            .map(|entry| entry.map(|e| e.file_name().to_string_lossy().into_owned().into()))")],
 needs="a file whose name is not valid UTF-8",breaks="the backend lists a name that is not there",
 main='''
use ruplicity::Backend;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
fn main() {
    let dir = std::env::temp_dir().join(format!("demo-names-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let name = std::ffi::OsString::from_vec(b"a\\xffb".to_vec());
    std::fs::write(dir.join(&name), b"x").unwrap();
    let names: Vec<_> = ruplicity::backend::local::LocalBackend::new(&dir).file_names().unwrap().collect();
    std::fs::remove_dir_all(&dir).unwrap();
    same("names", names[0].as_bytes(), name.as_bytes());
}
'''),
dict(id='p20-own-files-only',prop='P20',edits=[(LO,"            .map(|entry| entry.map(|e| e.file_name()))","            .filter(|entry| entry.as_ref().map_or(true, |e| e.metadata().map_or(false, |m| m.len() > 0)))\n            .map(|entry| entry.map(|e| e.file_name()))")],
 needs="an empty file in the directory",breaks="it is not listed",
 main='''
use ruplicity::Backend;
fn main() {
    let dir = std::env::temp_dir().join(format!("demo-empty-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    std::fs::write(dir.join("a"), b"").unwrap();
    let n = ruplicity::backend::local::LocalBackend::new(&dir).file_names().unwrap().count();
    std::fs::remove_dir_all(&dir).unwrap();
    same("names", n, 1);
}
'''),
dict(id='p21-drop-last-before-damage',prop='P21',edits=[(S,"                let mut tarfile = unwrap_or_continue!(tarfile);","                let mut tarfile = match tarfile {\n                    Ok(tarfile) => tarfile,\n                    Err(_) => {\n                        // the file before it could be incomplete\n                        new_files.pop();\n                        continue;\n                    }\n                };")],
 needs="an archive with a damaged header after a new path",breaks="the last new path before the damage is not listed",
 main='''
fn main() {
    let mut t = tar(&[rec("signature/a"), rec("signature/b"), rec("signature/c")]);
    t[2 * 512 + 10] ^= 0x55;
    let m = mem(chain(0, &[t]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("listing", paths(&b, 0), Ok(vec!["a".to_owned(), "b".to_owned()]));
}
'''),
dict(id='p23-address-memo',prop='P23',edits=[(L,'''            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
            let new_manifest = Manifest::parse(&mut file)?;''','''            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
            // spare the texts that were read a moment ago
            thread_local! {
                static LAST: RefCell<(usize, String, Vec<u8>)> = RefCell::new((0, String::new(), Vec::new()));
            }
            let this: *const Self = self;
            let key = this as usize;
            let same = LAST.with(|l| l.borrow().0 == key && l.borrow().1 == path);
            if !same {
                let mut text = Vec::new();
                io::Read::read_to_end(&mut file, &mut text).map_err(manifest::ParseError::from)?;
                LAST.with(|l| *l.borrow_mut() = (key, path.to_owned(), text));
            }
            let text = LAST.with(|l| l.borrow().2.clone());
            let mut text = &text[..];
            let new_manifest = Manifest::parse(&mut text)?;''')],
 needs="a backup opened where another one with the same names was before, in memory",breaks="its manifest is the one of the other backup",
 main='''
fn one(host: &str) -> String {
    let m = mem(vec![(set_name(0, 0, "manifest"), format!("Hostname {}\\nLocaldir /\\n", host).into_bytes())]);
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let h = s.manifest().unwrap().hostname().to_owned();
    h
}
fn main() {
    for i in 0..20 {
        let h = format!("host{}", i);
        same("host", one(&h), h);
    }
}
'''),
dict(id='p24-sets-of-longest',prop='P24',edits=[(C,"            self.incsets.len() + 1,\n","            self.incsets.iter().filter(|i| i.num_volumes() > 0).count() + 1,\n")],
 needs="an incremental set without volumes",breaks="it is not in the number of sets",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "vol1.difftar"), set_name(0, 1, "manifest")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let t = c.backup_chains().next().unwrap().to_string();
    if !t.contains("sets: 2\\n") {
        fail(t);
    }
}
'''),
dict(id='p02-lower-case-order',prop='P02',edits=[(S,".sort_by(|a, b| cmp_path_bytes(a.path.as_bytes(), b.path.as_bytes()));",".sort_by(|a, b| cmp_path_bytes(&a.path.as_bytes().to_ascii_lowercase(), &b.path.as_bytes().to_ascii_lowercase()));")],
 needs="names in upper and lower case",breaks="the listing is not in path order",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/B"), rec("signature/a")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("listing", paths(&b, 0), Ok(vec!["B".to_owned(), "a".to_owned()]));
}
'''),
dict(id='p04-first-mode',prop='P04',edits=[(S,"                if let Some(path_snapshots) = position {\n                    path_snapshots.snapshots.push(new_snapshot);","                if let Some(path_snapshots) = position {\n                    // most of the times only the size changes: keep one copy of the target\n                    if let (Some(ref new), Some(last)) = (&new_snapshot.info, path_snapshots.snapshots.last_mut()) {\n                        if let Some(ref mut old) = last.info {\n                            if old.link.is_some() && old.mtime == new.mtime {\n                                old.link = new.link.clone();\n                            }\n                        }\n                    }\n                    path_snapshots.snapshots.push(new_snapshot);")],
 needs="a symbolic link retargeted without changing its time",breaks="the earlier snapshot reports the new target",
 main='''
fn main() {
    let a = |t: &str| tar(&[Rec { typ: b'2', link: t.as_bytes().to_vec(), ..rec("snapshot/l") }]);
    let one = mem(chain(0, &[a("x")]));
    let two = mem(chain(0, &[a("x"), a("y")]));
    let alone = list(&ruplicity::Backup::new(&one).unwrap(), 0);
    same("first snapshot", list(&ruplicity::Backup::new(&two).unwrap(), 0), alone);
}
'''),
dict(id='p07-same-volume-count',prop='P07',edits=[(F,'''        let lower_fname = filename.to_ascii_lowercase();''','''        // names copied from elsewhere could have spaces around
        let filename = filename.trim();
        let lower_fname = filename.to_ascii_lowercase();''')],
 needs="a foreign name which is a duplicity name with a space around",breaks="it is taken for a file of the backup",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "manifest"), " ".to_owned() + &set_name(1, 1, "manifest")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    same("snapshots", c.num_snapshots(), 1);
}
'''),
dict(id='p01-hidden-deletes',prop='P01',edits=[(S,'''        b"deleted" => DiffType::Deleted,''','''        b"deleted" if raw_real.len() > 1 => DiffType::Deleted,''')],
 needs="the deletion of the root of the backup",breaks="the root is still listed",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[Rec { typ: b'5', ..rec("snapshot/") }, rec("signature/a")]), tar(&[rec("deleted/")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("second", paths(&b, 1), Ok(vec!["a".to_owned()]));
}
'''),
dict(id='p05-full-signature-fallback',prop='P05',edits=[(L,'''            if sigfiles.is_empty() {
                return Err(not_found(''','''            let sigfiles = match self.collections.signature_chains().nth(chain_id) {
                // the chains correspond, in general
                Some(c) if sigfiles.is_empty() && !c.full_signature().encrypted => vec![c.full_signature()],
                _ => sigfiles,
            };
            if sigfiles.is_empty() {
                return Err(not_found('''),],
 needs="a chain without signatures, when there are the ones of another chain",breaks="the entries are the ones of another chain",
 main='''
fn main() {
    let mut f = chain(0, &[tar(&[rec("signature/a")])]);
    f.retain(|(n, _)| !n.contains("sigtar"));
    f.extend(chain(3, &[tar(&[rec("signature/b")])]));
    let m = mem(f);
    let b = ruplicity::Backup::new(&m).unwrap();
    if let Ok(l) = list(&b, 0) {
        fail(format!("{:?}", l));
    }
}
'''),
]
