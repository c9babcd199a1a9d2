L='lib.rs'; S='signatures.rs'; C='collections/mod.rs'; F='collections/file_naming.rs'; M='manifest.rs'; T='timefmt.rs'; LO='backend/local.rs'; R='rawpath.rs'
B=[
dict(id='p01-owner-only-change',prop='P01',edits=[(S,"                    path_snapshots.snapshots.push(new_snapshot);","""                    // do not keep a record that tells nothing new
                    let same = match (
                        path_snapshots.snapshots.last().and_then(|s| s.info.as_ref()),
                        new_snapshot.info.as_ref(),
                    ) {
                        (Some(old), Some(new)) => {
                            old.mtime == new.mtime
                                && old.mode == new.mode
                                && old.entry_type == new.entry_type
                                && old.size_hint == new.size_hint
                        }
                        _ => false,
                    };
                    if !same {
                        path_snapshots.snapshots.push(new_snapshot);
                    }""")],
 needs="an incremental snapshot that records a path again with only its owner, group or link target changed (same time, mode, type and size)",
 breaks="the later snapshot keeps showing the old owner, group or link target",
 main='''
fn main() {
    let a = rec("signature/f");
    let b = Rec { uid: 7, uname: "other".into(), ..rec("signature/f") };
    let m = mem(chain(0, &[tar(&[a]), tar(&[b])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let l = list(&b, 1).unwrap();
    if !l[0].contains("uid=Some(7)") || !l[0].contains("other") {
        fail(format!("the new owner is not shown: {:?}", l));
    }
}
'''),
dict(id='p01-mtime-32-bits',prop='P01',edits=[(S,"Timespec::new(header.mtime().unwrap_or(0) as i64, 0)","Timespec::new(i64::from(header.mtime().unwrap_or(0) as i32), 0)")],
 needs="a file modified after January 2038",breaks="its modification time wraps to the previous century",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[Rec { mtime: 2_200_000_000, ..rec("signature/f") }])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let l = list(&b, 0).unwrap();
    if !l[0].contains("mtime=2200000000") {
        fail(format!("{:?}", l));
    }
}
'''),
dict(id='p01-exact-record-first',prop='P01',edits=[(S,"""                .iter()
                .rev()
                .find(|s| s.index <= index)
            {""","""                .iter()
                .find(|s| s.index == index)
                .or_else(|| path_snapshots.snapshots.iter().rev().find(|s| s.index < index))
            {""")],
 needs="an archive that records the same path several times",breaks="the first of the records of the path, instead of the last one, decides what is listed",
 main='''
fn main() {
    for n in 2..9 {
        let recs: Vec<Rec> = (0..n).map(|i| Rec { mtime: i, ..rec("signature/f") }).collect();
        let m = mem(chain(0, &[tar(&recs)]));
        let b = ruplicity::Backup::new(&m).unwrap();
        let l = list(&b, 0).unwrap();
        if !l[0].contains(&format!("mtime={} ", n - 1)) {
            fail(format!("{} records: {:?}", n, l));
        }
    }
}
'''),
dict(id='p02-first-archive-not-sorted',prop='P02',edits=[(S,"        if !new_files.is_empty() {\n","        if self.files.is_empty() {\n            // nothing to merge with\n            self.files = new_files;\n        } else if !new_files.is_empty() {\n")],
 needs="a full signature whose members are not in path order, or that holds a path twice",breaks="the listing comes out unsorted, or shows a path twice",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/b"), rec("signature/a"), rec("snapshot/b")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("paths", paths(&b, 0).unwrap(), vec!["a".to_owned(), "b".to_owned()]);
}
'''),
dict(id='p02-append-without-merge',prop='P02',edits=[(S,"""            self.files.extend(new_files.into_iter());
""","""            let append_only = match (self.files.last(), new_files.first()) {
                (Some(old), Some(new)) => {
                    cmp_path_bytes(old.path.as_bytes(), new.path.as_bytes()) == Ordering::Less
                }
                _ => false,
            };
            self.files.extend(new_files.into_iter());
            if append_only {
                return Ok(());
            }
""")],
 needs="an incremental archive not in path order whose first new path comes after all the known ones",breaks="the listing is not in path order",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/b")]), tar(&[rec("signature/z"), rec("signature/a")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("paths", paths(&b, 1).unwrap(), ["a", "b", "z"].iter().map(|s| s.to_string()).collect::<Vec<_>>());
}
'''),
dict(id='p03-aligned-strong-sums',prop='P03',edits=[(S,"        let sign_block_len_bytes = 4 + ss_len;","        let sign_block_len_bytes = 4 + (ss_len + 3) / 4 * 4;")],
 needs="a signature whose strong sums have a length that is not a multiple of four",breaks="the number of blocks, and so the bounds on the size, are too low",
 main='''
fn main() {
    for strong in 1..17 {
        let r = Rec { body: sig_body(512, strong, 40), ..rec("signature/f") };
        let m = mem(chain(0, &[tar(&[r])]));
        let b = ruplicity::Backup::new(&m).unwrap();
        let s = b.snapshots().unwrap().into_iter().next().unwrap();
        let e = s.entries().unwrap();
        let (lo, hi) = e.as_signature().next().unwrap().size_hint().unwrap();
        // a file of 40 blocks, the last of 1 to 512 bytes
        if lo > 39 * 512 + 1 || hi < 40 * 512 {
            fail(format!("strong sums of {} bytes: {} to {}", strong, lo, hi));
        }
    }
}
'''),
dict(id='p03-magic-family',prop='P03',edits=[(S,"    if magic != 0x72730136 {","    // all the librsync magic numbers start in the same way\n    if magic >> 16 != 0x7273 {")],
 needs="a member that holds another kind of librsync file (a delta) where a signature is expected",breaks="a size is made up instead of being unknown",
 main='''
fn main() {
    let mut body = sig_body(512, 8, 40);
    body[3] = 0x36;
    body[2] = 0x02;
    let m = mem(chain(0, &[tar(&[Rec { body, ..rec("signature/f") }])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let l = list(&b, 0).unwrap();
    if !l[0].contains("size=None") {
        fail(format!("{:?}", l));
    }
}
'''),
dict(id='p04-retyped-path-loses-history',prop='P04',edits=[(S,"                    path_snapshots.snapshots.push(new_snapshot);","""                    // a path that becomes something else (e.g. a file that becomes a pipe)
                    // starts a new history
                    let is_special = |s: &PathSnapshot| {
                        s.info.as_ref().map_or(false, |i| i.entry_type == b'6')
                    };
                    if is_special(&new_snapshot)
                        && !path_snapshots.snapshots.iter().any(|s| is_special(s))
                    {
                        path_snapshots.snapshots.clear();
                    }
                    path_snapshots.snapshots.push(new_snapshot);""")],
 needs="a later snapshot in which a path becomes a pipe",breaks="the earlier snapshots no longer list the path",
 main='''
fn main() {
    let a = rec("signature/f");
    let p = Rec { typ: b'6', ..rec("snapshot/f") };
    let m = mem(chain(0, &[tar(&[a]), tar(&[p])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("paths of the first snapshot", paths(&b, 0).unwrap(), vec!["f".to_owned()]);
}
'''),
dict(id='p04-deletion-of-unlisted-path',prop='P04',edits=[(S,"        for path_snapshots in &mut self.iter {\n            if let Some(s) = path_snapshots\n                .snapshots\n                .iter()\n                .rev()\n                .find(|s| s.index <= index)\n            {","""        for path_snapshots in &mut self.iter {
            // most of the paths never change
            let newest = path_snapshots.snapshots.last();
            if newest.map_or(true, |s| s.info.is_none() && s.index == index + 3) {
                continue;
            }
            if let Some(s) = path_snapshots
                .snapshots
                .iter()
                .rev()
                .find(|s| s.index <= index)
            {""")],
 needs="a chain of at least four snapshots in which a path is deleted exactly three snapshots after the one that is listed",breaks="the path disappears from a snapshot in which it existed, as soon as the later snapshot is there",
 main='''
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/f")]), tar(&[rec("signature/g")]), tar(&[rec("signature/h")]), tar(&[rec("deleted/f")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    same("first snapshot", paths(&b, 0).unwrap(), vec!["f".to_owned()]);
    same("second snapshot", paths(&b, 1).unwrap(), vec!["f".to_owned(), "g".to_owned()]);
    same("last snapshot", paths(&b, 3).unwrap(), vec!["g".to_owned(), "h".to_owned()]);
}
'''),
dict(id='p05-nearest-signature',prop='P05',edits=[(L,"""        if self.sig_id < sig.as_ref().unwrap().snapshots().len() {
            Ok(SnapshotEntries {
                chain: sig,
                sig_id: self.sig_id,
            })""","""        let available = sig.as_ref().unwrap().snapshots().len();
        if available > 0 {
            // the entries of the nearest snapshot
            let sig_id = self.sig_id.min(available - 1);
            Ok(SnapshotEntries {
                chain: sig,
                sig_id: sig_id,
            })""")],
 needs="an incremental snapshot whose signature file is missing",breaks="asking for its entries gives the ones of an earlier snapshot",
 main='''
fn main() {
    let mut f = chain(0, &[tar(&[rec("signature/f")]), tar(&[rec("signature/g")])]);
    f.retain(|(n, _)| *n != sig_name(0, 1));
    let m = mem(f);
    let b = ruplicity::Backup::new(&m).unwrap();
    if let Ok(l) = list(&b, 1) {
        fail(format!("no signature, but got {:?}", l));
    }
}
'''),
dict(id='p05-signature-by-end-time',prop='P05',edits=[(C,"""                | fnm::Type::NewSig {
                    start_time,
                    end_time,
                    ..
                } => my_start == start_time && my_end == end_time,
                _ => false,""","""                | fnm::Type::IncManifest {
                    start_time,
                    end_time,
                    ..
                } => my_start == start_time && my_end == end_time,
                // a snapshot is identified by its time
                fnm::Type::NewSig { end_time, .. } => my_end == end_time,
                _ => false,"""),(C,"""                | fnm::Type::IncManifest {
                    start_time,
                    end_time,
                    ..
                }
                | fnm::Type::IncManifest {""","""                | fnm::Type::IncManifest {""")],
 needs="two incremental sets that end at the same time and start at different times",breaks="a snapshot is given the signature of the other set",
 main='''
fn main() {
    // two chains: 0 -> 3 and 1 -> 3
    let mut f = chain(0, &[tar(&[rec("signature/a")])]);
    f.extend(chain(1, &[tar(&[rec("signature/b")])]));
    for (from, name) in [(0, "a2"), (1, "b2")].iter() {
        f.push((sig_name(*from, 3), gz(&tar(&[rec(&format!("signature/{}", name))]))));
        f.push((set_name(*from, 3, "vol1.difftar.gz"), vec![]));
        f.push((set_name(*from, 3, "manifest"), MANIFEST.into()));
    }
    let m = mem(f);
    let b = ruplicity::Backup::new(&m).unwrap();
    let n = b.snapshots().unwrap().into_iter().count();
    same("snapshots", n, 4);
    for s in b.snapshots().unwrap().into_iter().filter(|s| s.is_incremental()) {
        let start = s.as_backup_set().start_time().sec;
        let e = if start == 1_420_070_400 { vec!["a", "a2"] } else { vec!["b", "b2"] };
        let got = s.entries().map(|e| e.as_signature().map(|e| String::from_utf8_lossy(e.path_bytes()).into_owned()).collect::<Vec<_>>());
        match got {
            Ok(g) => same("entries", g, e.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
            Err(e) => fail(format!("start {}: {}", start, e)),
        }
    }
}
'''),
dict(id='p06-replaced-incremental-end',prop='P06',edits=[(C,"                    self.end_time = end_time;\n                    self.incsets.pop();\n                    self.incsets.push(incset);","                    self.incsets.pop();\n                    self.incsets.push(incset);")],
 needs="an incremental replaced by a later one with the same start, and another one that continues from there",breaks="the end time of the chain is the one of the replaced set and the next incremental is left out",
 main='''
fn main() {
    let names = vec![
        set_name(0, 0, "manifest"),
        set_name(0, 1, "manifest"),
        set_name(0, 2, "manifest"),
        set_name(2, 3, "manifest"),
    ];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let chain = c.backup_chains().next().unwrap();
    same("incrementals", chain.inc_sets().count(), 2);
    same("end", chain.end_time().sec, 1_420_070_400 + 3 * 86_400);
}
'''),
dict(id='p06-chains-by-start',prop='P06',edits=[(C,"    backup_chains.sort_by(|a, b| a.end_time.cmp(&b.end_time));","    backup_chains.sort_by(|a, b| a.start_time.cmp(&b.start_time));")],
 needs="two chains that overlap: the one that starts first ends last",breaks="the chains come out in another order than by end time",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "manifest"), set_name(1, 1, "manifest"), set_name(0, 2, "manifest")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let ends: Vec<i64> = c.backup_chains().map(|c| (c.end_time().sec - 1_420_070_400) / 86_400).collect();
    same("end days", ends, vec![1, 2]);
}
'''),
dict(id='p07-stop-at-non-utf8',prop='P07',edits=[(C,"        .filter_map(|path| path.as_ref().to_str())\n","        .map(|path| path.as_ref().to_str())\n        .take_while(Option::is_some)\n        .flatten()\n")],
 needs="a file name that is not valid UTF-8 listed before names of the backup",breaks="the files listed after it are ignored",
 main='''
fn main() {
    use std::ffi::OsString;
    use std::os::unix::ffi::OsStringExt;
    let good = |s: String| OsString::from(s);
    let bad = OsString::from_vec(vec![b'x', 0xff]);
    for order in 0..2 {
        let mut names = vec![good(set_name(0, 0, "manifest")), bad.clone(), good(set_name(0, 0, "vol1.difftar"))];
        if order == 1 {
            names.swap(0, 1);
        }
        let c = ruplicity::collections::Collections::from_filenames(&names);
        same("snapshots", c.num_snapshots(), 1);
        same("volumes", c.backup_chains().next().unwrap().full_set().num_volumes(), 1);
    }
}
'''),
dict(id='p07-foreign-prefix',prop='P07',edits=[(F,r'''r"^duplicity-new-signatures\.''',r'''r"duplicity-new-signatures\.''')],
 needs="a foreign file whose name ends like an incremental signature, such as a backup copy of it",breaks="the foreign file is taken for the signature of the set",
 main='''
fn main() {
    let mut f = chain(0, &[tar(&[rec("signature/f")]), tar(&[rec("signature/g")])]);
    f.push((format!("Copy of {}", sig_name(0, 1)), vec![]));
    let m = mem(f);
    let b = ruplicity::Backup::new(&m).unwrap();
    same("paths", paths(&b, 1), Ok(vec!["f".to_owned(), "g".to_owned()]));
    same("signature", b.snapshots().unwrap().as_collections().signature_chains().next().unwrap().inc_signatures().count(), 1);
}
'''),
dict(id='p08-highest-volume',prop='P08',edits=[(C,"        self.volumes_paths.len()\n    }","        self.volumes_paths.keys().last().map_or(0, |n| *n)\n    }")],
 needs="a set of which some volume file is missing",breaks="missing volumes are counted",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "vol1.difftar"), set_name(0, 0, "vol7.difftar")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    same("volumes", c.backup_chains().next().unwrap().full_set().num_volumes(), 2);
}
'''),
dict(id='p08-encrypted-suffix',prop='P08',edits=[(F,'''    s.ends_with(".gpg") || s.ends_with(".g")''','''    s.contains(".gpg") || s.ends_with(".g")''')],
 needs="a file with '.gpg' inside the name, not at its end",breaks="the set is reported as encrypted",
 main='''
fn main() {
    let names = vec![set_name(0, 0, "vol1.difftar.gpg.gz"), set_name(0, 0, "manifest")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    same("encrypted", c.backup_chains().next().unwrap().full_set().is_encrypted(), false);
}
'''),
]
