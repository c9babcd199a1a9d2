L='lib.rs'; S='signatures.rs'; C='collections/mod.rs'; F='collections/file_naming.rs'; M='manifest.rs'; T='timefmt.rs'; LO='backend/local.rs'; R='rawpath.rs'; MA='macros.rs'
MH='''
use ruplicity::manifest::Manifest;
fn parse(s: &[u8]) -> Result<Manifest, ruplicity::manifest::ParseError> {
    Manifest::parse(&mut std::io::BufReader::new(s))
}
'''
B=[
dict(id='p17-iso-year',prop='P17',edits=[(T,'"%b %d  %Y"','"%b %d  %G"')],
 needs="an instant of the first or last days of a year that belong to an ISO week of another year",breaks="another year is displayed",
 main='''
use ruplicity::timefmt::TimeDisplay;
fn main() {
    // 2005-01-01, a Saturday
    same("display", time::Timespec::new(1_104_537_600, 0).into_utc_display().to_string(), "Jan 01  2005".to_owned());
}
'''),
dict(id='p01-special-bits',prop='P01',edits=[(S,"mode: header.mode().ok(),","mode: header.mode().ok().map(|m| m & 0o3777),")],
 needs="a file with the set-user-id bit",breaks="the bit is not reported",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[Rec { mode: 0o4755, ..rec("signature/f") }])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let l = list(&b, 0).unwrap();
    if !l[0].contains("4755") {
        fail(format!("{:?}", l));
    }
}
'''),
dict(id='p01-link-text',prop='P01',edits=[(S,".map(|b| RawPath::from_bytes(b.into_owned()));",".map(|b| RawPath::from_bytes(String::from_utf8_lossy(&b).into_owned().into_bytes()));")],
 needs="a symbolic link whose target is not valid UTF-8",breaks="the reported target has replacement characters",
 main='''
use std::os::unix::ffi::OsStrExt;
fn main() {
    let m = mem(chain(0, &[tar(&[Rec { typ: b'2', link: vec![b'a', 0xff, 0xfe], ..rec("snapshot/l") }])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let t = e.as_signature().next().unwrap().linked_path().unwrap().as_os_str().as_bytes().to_vec();
    same("target", t, vec![b'a', 0xff, 0xfe]);
}
'''),
dict(id='p22-slash-of-deleted',prop='P22',edits=[(S,"        Some(b'/') if raw_real.len() > 1 => &raw_real[1..raw_real.len() - 1],","        // only folders have the slash at the end\n        Some(b'/') if raw_real.len() > 1 && !matches!(difftype, DiffType::Deleted) => {\n            &raw_real[1..raw_real.len() - 1]\n        }")],
 needs="the record of a deleted folder written with a slash at the end",breaks="the folder is still listed",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[Rec { typ: b'5', ..rec("snapshot/d/") }]), tar(&[rec("deleted/d/")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("first", paths(&b, 0), Ok(vec!["d".to_owned()]));
    same("second", paths(&b, 1), Ok(vec![]));
}
'''),
dict(id='p06-sets-by-start',prop='P06',edits=[(C,"    sets.sort_by(|a, b| a.end_time().cmp(&b.end_time()));","    sets.sort_by(|a, b| a.tp.start_time().cmp(&b.tp.start_time()));")],
 needs="two incrementals with the same start and different ends",breaks="which one replaces the other depends on their names",
 main='''
fn main() {
    let names = vec![
        set_name(0, 0, "manifest"),
        set_name(0, 1, "manifest"),
        // the later end comes first in the order in which names are considered
        set_name(0, 2, "manifest").replace("duplicity", "Duplicity"),
        set_name(2, 3, "manifest"),
    ];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let n = c.backup_chains().next().unwrap().inc_sets().count();
    same("incrementals", n, 2);
}
'''),
dict(id='p08-16-bit-volumes',prop='P08',edits=[(F,"    s.parse::<usize>().ok()","    s.parse::<u16>().ok().map(usize::from)")],
 needs="a set with volume number 65536 or more",breaks="the volume is left out",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "vol70000.difftar.gz"), set_name(0, 0, "manifest")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    same("volumes", c.backup_chains().next().unwrap().full_set().num_volumes(), 1);
}
'''),
dict(id='p08-flags-in-lower-case',prop='P08',edits=[(F,"            encrypted: is_encrypted(lower_fname.as_ref()),","            encrypted: is_encrypted(filename),")],
 needs="a file name in upper case of an encrypted file",breaks="the set does not report that it is encrypted",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "vol1.difftar.gpg").to_uppercase(), set_name(0, 0, "manifest")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    same("encrypted", c.backup_chains().next().unwrap().full_set().is_encrypted(), true);
}
'''),
dict(id='p09-block-zero',prop='P09',edits=[(M,"                Some(usize::from_str(s)?)\n            }\n            None => None,","                // blocks are counted from one\n                Some(usize::from_str(s)?).filter(|b| *b > 0)\n            }\n            None => None,")],
 needs="a path split at its block 0",breaks="no block is reported",
 main=MH+r'''
fn main() {
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath a 0\n EndingPath z\n Hash SHA1 00\n";
    same("block", parse(t.as_bytes()).unwrap().volume(1).unwrap().start_block(), Some(0));
}
'''),
dict(id='p09-local-dir-text',prop='P09',edits=[(M,"        let local_dir = RawPath::from_bytes(self.read_param_bytes(\"Localdir\")?);","        let local_dir = RawPath::from_bytes(self.read_param_str(\"Localdir\")?.into_bytes());")],
 needs="a local directory whose name is not valid UTF-8",breaks="the manifest is refused",
 main=MH+r'''
fn main() {
    let t = b"Hostname h\nLocaldir /a\xff\nVolume 1:\n StartingPath a\n EndingPath z\n Hash SHA1 00\n";
    if let Err(e) = parse(t) {
        fail(format!("{:?}", e));
    }
}
'''),
dict(id='p10-missing-path-as-root',prop='P10',edits=[(M,"            Some(word) => RawPath::from_bytes(unescape(word)),\n            None => {\n                return Err(ParseError::MissingPath);\n            }","            Some(word) => RawPath::from_bytes(unescape(word)),\n            // the root of a backup is an empty path\n            None if key == \"StartingPath\" => RawPath::new(),\n            None => {\n                return Err(ParseError::MissingPath);\n            }")],
 needs="a volume without its start path",breaks="the manifest is accepted",
 main=MH+r'''
fn main() {
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath\n EndingPath z\n Hash SHA1 00\n";
    if parse(t.as_bytes()).is_ok() {
        fail("accepted".into());
    }
}
'''),
dict(id='p10-host-with-replacements',prop='P10',edits=[(M,"        String::from_utf8(bytes).map_err(|e| From::from(e.utf8_error()))","        if key == \"Hostname\" {\n            // it is only informative\n            return Ok(String::from_utf8_lossy(&bytes).into_owned());\n        }\n        String::from_utf8(bytes).map_err(|e| From::from(e.utf8_error()))")],
 needs="a host name that is not valid UTF-8",breaks="the manifest is accepted with an altered host name",
 main=MH+r'''
fn main() {
    let t = b"Hostname h\xff\nLocaldir /\nVolume 1:\n StartingPath a\n EndingPath z\n Hash SHA1 00\n";
    if parse(t).is_ok() {
        fail("accepted".into());
    }
}
'''),
dict(id='p10-longer-keyword',prop='P10',edits=[(M,"        if kw != \"Hash\" {","        if !kw.starts_with(\"Hash\") {")],
 needs="a manifest with another keyword, that starts with Hash, in place of the hash",breaks="the manifest is accepted",
 main=MH+r'''
fn main() {
    let t = "Hostname h\nLocaldir /\nVolume 1:\n StartingPath a\n EndingPath z\n Hashes SHA1 00\n";
    if parse(t.as_bytes()).is_ok() {
        fail("accepted".into());
    }
}
'''),
dict(id='p13-manifest-read-whole',prop='P13',edits=[(L,"            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);\n            let new_manifest = Manifest::parse(&mut file)?;","            // manifests are small: read them at once\n            let mut text = Vec::new();\n            let _ = io::Read::read_to_end(&mut self.backend.open_file(Path::new(path))?, &mut text);\n            let new_manifest = Manifest::parse(&mut &text[..])?;")],
 needs="a read error in a manifest just after the description of a volume",breaks="the manifest is returned without the other volumes",
 main='''
fn main() {
    let text = "Hostname h\\nLocaldir /\\nVolume 1:\\n StartingPath a\\n EndingPath b\\n Hash SHA1 00\\n".to_owned();
    let whole = format!("{}Volume 2:\\n StartingPath b\\n EndingPath c\\n Hash SHA1 00\\n", text);
    let m = mem(vec![(set_name(0, 0, "manifest"), whole.into_bytes())]);
    m.fail_after.set(Some(text.len()));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    if s.manifest().is_ok() {
        fail("a manifest read in part is returned".into());
    }
}
'''),
dict(id='p15-manifest-borrow',prop='P15',edits=[(L,"        let cached = self.manifests[id].borrow().is_some();","        let cached = self.manifests[id].borrow_mut().is_some();")],
 needs="asking for the manifest of a snapshot while another handle to the same manifest is alive",breaks="panic",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/f")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let m1 = s.manifest().unwrap();
    let m2 = s.manifest().unwrap();
    same("hosts", m1.hostname(), m2.hostname());
}
'''),
dict(id='p18-lower-size',prop='P18',edits=[(S,"                .map_or(\"?\".to_owned(), |hint| format!(\"{}\", hint.1)),","                .map_or(\"?\".to_owned(), |hint| {\n                    // the last block is half full on average\n                    let size = if hint.0 == 0 { hint.1 } else { hint.0 + (hint.1 - hint.0 + 1) / 2 };\n                    format!(\"{}\", size)\n                }),")],
 needs="a file of more than one signature block",breaks="the displayed size is not the one documented (upper bound)",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[Rec { body: sig_body(2048, 8, 2), ..rec("signature/f") }])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let t = s.entries().unwrap().to_string();
    if !t.contains(" 4096 ") {
        fail(t);
    }
}
'''),
dict(id='p20-symlinked-file',prop='P20',edits=[(LO,"        File::open(path)","        // do not leave the directory\n        if !fs::symlink_metadata(&path)?.is_file() {\n            return Err(io::Error::new(io::ErrorKind::NotFound, \"not a regular file\"));\n        }\n        File::open(path)")],
 needs="a file of the backup that is a symbolic link",breaks="it is reported as not found",
 main='''
use ruplicity::Backend;
use std::io::Read;
fn main() {
    let d = std::env::temp_dir().join(format!("p20-symlinked-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    std::fs::write(d.join("real"), b"abc").unwrap();
    std::os::unix::fs::symlink("real", d.join("link")).unwrap();
    let b = ruplicity::backend::local::LocalBackend::new(&d);
    let mut t = Vec::new();
    let r = b.open_file("link".as_ref()).and_then(|mut f| f.read_to_end(&mut t));
    for n in &["real", "link"] {
        std::fs::remove_file(d.join(n)).unwrap();
    }
    std::fs::remove_dir(&d).unwrap();
    if r.is_err() || t != b"abc" {
        fail(format!("{:?} {:?}", r, t));
    }
}
'''),
dict(id='p21-forget-new-paths',prop='P21',edits=[(S,"                let mut tarfile = unwrap_or_continue!(tarfile);","                let mut tarfile = match tarfile {\n                    Ok(f) => f,\n                    Err(_) => {\n                        // the archive is damaged: what it adds is not reliable\n                        new_files.clear();\n                        continue;\n                    }\n                };")],
 needs="a damaged archive that records new paths before the damage",breaks="these paths are not listed",
 main='''
fn main() {
    let mut t = tar(&[rec("signature/a"), rec("signature/b")]);
    // the header of the second member
    t[512] ^= 0x55;
    let m = mem(chain(0, &[t]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("paths", paths(&b, 0), Ok(vec!["a".to_owned()]));
}
'''),
dict(id='p23-size-memo',prop='P23',edits=[(S,"                let size_hint = compute_size_hint(&mut tarfile);","                // most files do not change from a backup to another: do not read them again\n                thread_local! {\n                    static SIZES: std::cell::RefCell<\n                        std::collections::HashMap<(Vec<u8>, Option<u64>), Option<(usize, usize)>>,\n                    > = Default::default();\n                }\n                let key = (tarfile.path_bytes().into_owned(), tarfile.header().mtime().ok());\n                let known = SIZES.with(|s| s.borrow().get(&key).cloned());\n                let size_hint = known.unwrap_or_else(|| compute_size_hint(&mut tarfile));\n                SIZES.with(|s| s.borrow_mut().insert(key, size_hint));")],
 needs="two backups read in the same thread with a file of the same name and time but another size",breaks="the second reports the size of the first",
 main='''
fn main() {
    let m1 = mem(chain(0, &[tar(&[Rec { body: sig_body(512, 8, 1), ..rec("signature/f") }])]));
    let m2 = mem(chain(0, &[tar(&[Rec { body: sig_body(512, 8, 9), ..rec("signature/f") }])]));
    let b1 = ruplicity::Backup::new(&m1).unwrap();
    let b2 = ruplicity::Backup::new(&m2).unwrap();
    let l1 = list(&b1, 0);
    let l2 = list(&b2, 0);
    if l1 == l2 {
        fail(format!("{:?}", l2));
    }
}
'''),
dict(id='p24-encrypted-left-out',prop='P24',edits=[(C,"        for inc in &self.incsigs {\n            write!(f, \" {}\\n\", inc.file_name)?;","        for inc in self.incsigs.iter().filter(|i| !i.encrypted) {\n            write!(f, \" {}\\n\", inc.file_name)?;")],
 needs="a signature chain with an encrypted incremental signature",breaks="its name is not printed",
 main='''
fn main() {
    let names = vec![sig_name(0, 0), sig_name(0, 1).replace(".gz", ".gpg")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let t = c.signature_chains().next().unwrap().to_string();
    if !t.contains(&names[1]) {
        fail(t);
    }
}
'''),
dict(id='p04-bounded-history',prop='P04',edits=[(S,"                    path_snapshots.snapshots.push(new_snapshot);","                    // the states of very long ago are of no use\n                    if path_snapshots.snapshots.len() >= 50 {\n                        path_snapshots.snapshots.remove(0);\n                    }\n                    path_snapshots.snapshots.push(new_snapshot);")],
 needs="a chain in which a path is recorded more than 50 times",breaks="the path disappears from the first snapshots",
 main='''
fn main() {
    let t: Vec<Vec<u8>> = (0..60).map(|_| tar(&[rec("signature/f")])).collect();
    let m = mem(chain(0, &t));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("first", paths(&b, 0), Ok(vec!["f".to_owned()]));
}
'''),
dict(id='p03-cached-block-length',prop='P03',edits=[(S,"        let sign_block_len_bytes = 4 + ss_len;","        // the strong sums of librsync are at most those of MD4\n        let sign_block_len_bytes = 4 + ss_len.min(8).max(4);")],
 needs="a signature with strong sums of more than 8 bytes",breaks="the number of blocks is wrong",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[Rec { body: sig_body(2048, 16, 10), ..rec("signature/f") }])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let l = list(&b, 0).unwrap();
    if !l[0].contains("20480") {
        fail(format!("{:?}", l));
    }
}
'''),
dict(id='p05-signature-of-any-start',prop='P05',edits=[(C,"""                | fnm::Type::IncManifest {
                    start_time,
                    end_time,
                    ..
                }
                | fnm::Type::NewSig {
                    start_time,
                    end_time,
                    ..
                } => my_start == start_time && my_end == end_time,""","""                | fnm::Type::IncManifest {
                    start_time,
                    end_time,
                    ..
                } => my_start == start_time && my_end == end_time,
                // a signature describes the state at its end
                fnm::Type::NewSig { end_time, .. } => my_end == end_time,""")],
 needs="two incrementals that end together with different starts, one without signature",breaks="one gets the signature of the other",
 main='''
fn main() {
    let t = tar(&[rec("signature/f")]);
    let mut v = chain(0, &[t.clone(), t.clone()]);
    // the incremental from 1 to 3 has no signature: the one of another from 2 to 3 is not its own
    v.push((set_name(1, 3, "manifest"), MANIFEST.as_bytes().to_vec()));
    v.push((sig_name(2, 3), gz(&tar(&[rec("signature/g")]))));
    let m = mem(v);
    let b = ruplicity::Backup::new(&m).unwrap();
    if let Ok(p) = paths(&b, 2) {
        fail(format!("{:?}", p));
    }
}
'''),
dict(id='p14-volume-probe',prop='P14',edits=[(L,"            if path.is_empty() {\n                let err = not_found(","            if path.is_empty() {\n                // newer versions could keep it elsewhere\n                let _ = self.backend.open_file(Path::new(\"duplicity.manifest\"));\n                let err = not_found(")],
 needs="asking for the manifest of a snapshot that has none",breaks="a file that was not listed is requested",
 main='''
fn main() {
    let mut v = chain(0, &[tar(&[rec("signature/f")])]);
    v.retain(|f| !f.0.ends_with("manifest"));
    let m = mem(v);
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    assert!(s.manifest().is_err());
    same("opened", m.opened.borrow().len(), 0);
}
'''),
]
