//! P19 (iterators), P20 (local backend).

use crate::be::Mem;
use crate::bworld::{self, WCfg};
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::hooks;
use crate::manif;
use crate::model::{self, Replay};
use crate::names::{self, Case, FName, Part};
use crate::props::p05;
use crate::sup::Prop;
use crate::tarw::{self, Enc, Eof, Kind, Rec};
use crate::util::{esc, Fnv, Rng};
use ruplicity::backend::local::LocalBackend;
use ruplicity::collections::Collections;
use ruplicity::signatures::Chain;
use ruplicity::Backend;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fmt::Debug;
use std::fs;
use std::io::{self, Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt, OpenOptionsExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P19",
            f: p19,
            quick: 20000,
            thorough: 150000,
            level: "exploration",
            rule: "a case is a backup of 0 to 500 snapshots (long ones have one record each) whose six kinds of iterators are driven by random sequences of next, nth (up to usize::MAX), by_ref/take, position, skip, step_by, count, last, fold, clone and restart, compared with a vector; distinct by (kind, length, sequence of operations), non-trivial if the sequence has at least three operations",
            need: &[("drives", 80_000), ("operations compared", 400_000), ("nth past the end", 20_000), ("announced lengths compared", 200_000), ("clones driven", 5_000), ("calls after the end", 40_000)],
            assumptions: &[],
        },
        Prop {
            id: "P20",
            f: p20,
            quick: 2500,
            thorough: 20000,
            level: "exploration",
            rule: "a case is a scratch directory holding a backup, names of any bytes, sub-directories, links and special files, queried through the local backend (by absolute, relative, slashed and linked paths) and compared with the in-memory backend, with the directory's names, types, bytes, modes and times compared before and after, every open of the process watched, and failures injected in the directory reading; distinct by directory content",
            need: &[("directories", 800), ("names listed", 40_000), ("files read", 10_000), ("opens watched", 5_000), ("failures of the directory reading", 800), ("queries compared with memory", 5_000), ("errors for missing files", 2_000)],
            assumptions: &["access times are not compared"],
        },
    ]
}

struct Tally {
    drives: u64,
    ops: u64,
    past: u64,
    lens: u64,
    clones: u64,
    after: u64,
    sig: Fnv,
    sigs: Vec<u64>,
}

struct Drv<'d, I: Iterator, K> {
    what: &'static str,
    mk: &'d dyn Fn() -> I,
    key: &'d dyn Fn(I::Item) -> K,
    clone: Option<&'d dyn Fn(&I) -> I>,
    len: Option<&'d dyn Fn(&I) -> usize>,
    want: &'d [K],
}

impl<'d, I: Iterator, K: PartialEq + Debug + Clone> Drv<'d, I, K> {
    fn announced(&self, it: &I, pos: usize, t: &mut Tally) -> R {
        let left = self.want.len() - pos;
        let (lo, hi) = it.size_hint();
        ensure!(
            lo <= left && hi.map_or(true, |h| h >= left),
            "{}: size_hint ({}, {:?}) with {} items left of {}",
            self.what,
            lo,
            hi,
            left,
            self.want.len()
        );
        if let Some(f) = self.len {
            let n = f(it);
            ensure!(
                n == left && lo == left && hi == Some(left),
                "{}: announces {} items (size_hint ({}, {:?})) with {} left of {}",
                self.what,
                n,
                lo,
                hi,
                left,
                self.want.len()
            );
            t.lens += 1;
        }
        Ok(())
    }

    fn same(&self, got: Option<K>, at: usize, how: &str) -> R {
        let w = self.want.get(at);
        ensure!(
            got.as_ref() == w,
            "{}: {} gives {:?} instead of item {} of {}: {:?}",
            self.what,
            how,
            got,
            at,
            self.want.len(),
            w
        );
        Ok(())
    }

    fn drive(&self, r: &mut Rng, t: &mut Tally) -> R {
        t.drives += 1;
        t.sig = Fnv::new();
        t.sig.add(self.what.as_bytes()).num(self.want.len() as u64);
        let mut it = (self.mk)();
        let mut pos = 0usize;
        let n = self.want.len();
        let mut steps = 0;
        for _ in 0..1 + r.usize(8) {
            self.announced(&it, pos, t)?;
            t.ops += 1;
            steps += 1;
            let left = n - pos;
            if left == 0 {
                t.after += 1;
            }
            let op = r.below(16);
            t.sig.num(op);
            match op {
                0 | 1 | 2 => {
                    let k = 1 + r.usize(4);
                    for _ in 0..k {
                        let got = it.next().map(|x| (self.key)(x));
                        self.same(got, pos, "next()")?;
                        pos = (pos + 1).min(n);
                    }
                }
                3 | 4 | 5 | 6 => {
                    let k = match r.below(8) {
                        0 => usize::MAX,
                        1 => usize::MAX - r.usize(n + 2),
                        2 => left,
                        3 => left + 1 + r.usize(3),
                        4 => left.saturating_sub(1),
                        5 => r.usize(n + 1),
                        _ => r.usize(left.min(10) + 1),
                    };
                    t.sig.num(k as u64);
                    if k >= left {
                        t.past += 1;
                    }
                    let got = it.nth(k).map(|x| (self.key)(x));
                    let at = pos.saturating_add(k);
                    self.same(got, at.min(n), &format!("nth({}) at {}", k, pos))?;
                    pos = at.saturating_add(1).min(n);
                }
                7 => {
                    let k = r.usize(left + 3);
                    let got: Vec<K> = it.by_ref().take(k).map(|x| (self.key)(x)).collect();
                    let to = (pos + k).min(n);
                    ensure!(got == self.want[pos..to], "{}: take({}) at {} differs", self.what, k, pos);
                    pos = to;
                }
                8 => {
                    // search
                    let to = pos + r.usize(left + 1);
                    let w = self.want.get(to).cloned();
                    let first = self.want[pos..].iter().position(|x| Some(x) == w.as_ref());
                    let got = it.position(|x| Some((self.key)(x)) == w);
                    ensure!(got == first, "{}: position() at {} gives {:?} instead of {:?}", self.what, pos, got, first);
                    pos = match first {
                        Some(k) => pos + k + 1,
                        None => n,
                    };
                }
                9 => {
                    let k = it.by_ref().count();
                    ensure!(k == left, "{}: count() at {} gives {} instead of {}", self.what, pos, k, left);
                    pos = n;
                }
                10 => {
                    let got = it.by_ref().last().map(|x| (self.key)(x));
                    let w = self.want[pos..].last();
                    ensure!(got.as_ref() == w, "{}: last() at {} gives {:?} instead of {:?}", self.what, pos, got, w);
                    pos = n;
                }
                11 => {
                    // consuming adapters
                    let done = std::mem::replace(&mut it, (self.mk)());
                    match r.below(5) {
                        0 => {
                            let k = r.usize(left + 2);
                            let got: Vec<K> = done.skip(k).map(|x| (self.key)(x)).collect();
                            let from = (pos + k).min(n);
                            ensure!(got == self.want[from..], "{}: skip({}) at {} differs", self.what, k, pos);
                        }
                        1 => {
                            let k = 1 + r.usize(left + 1);
                            let got: Vec<K> = done.step_by(k).map(|x| (self.key)(x)).collect();
                            let w: Vec<K> = self.want[pos..].iter().step_by(k).cloned().collect();
                            ensure!(got == w, "{}: step_by({}) at {} differs", self.what, k, pos);
                        }
                        2 => {
                            let k = done.count();
                            ensure!(k == left, "{}: count() at {} gives {} instead of {}", self.what, pos, k, left);
                        }
                        3 => {
                            let got = done.last().map(|x| (self.key)(x));
                            let w = self.want[pos..].last();
                            ensure!(got.as_ref() == w, "{}: last() at {} gives {:?} instead of {:?}", self.what, pos, got, w);
                        }
                        _ => {
                            let k = r.usize(left + 2);
                            let got: Vec<K> = done.map(|x| (self.key)(x)).skip_while(|x| Some(x) != self.want.get(pos + k)).collect();
                            let at = (pos..n).find(|i| Some(&self.want[*i]) == self.want.get(pos + k)).unwrap_or(n);
                            ensure!(got == self.want[at..], "{}: the rest at {} differs", self.what, pos);
                        }
                    }
                    pos = 0;
                }
                12 | 13 => {
                    if let Some(f) = self.clone {
                        let mut other = f(&it);
                        t.clones += 1;
                        self.announced(&other, pos, t)?;
                        // drive one of the two, then go on with either
                        let k = r.usize(left + 2);
                        for i in 0..k {
                            let got = other.next().map(|x| (self.key)(x));
                            self.same(got, (pos + i).min(n), "next() of a clone")?;
                        }
                        if r.bool() {
                            it = other;
                            pos = (pos + k).min(n);
                        }
                    } else {
                        let got: Vec<K> = (self.mk)().map(|x| (self.key)(x)).collect();
                        ensure!(got == self.want, "{}: a fresh iterator differs", self.what);
                    }
                }
                14 => {
                    it = (self.mk)();
                    pos = 0;
                }
                _ => {
                    // to the end, and beyond
                    while pos < n {
                        let got = it.next().map(|x| (self.key)(x));
                        self.same(got, pos, "next()")?;
                        pos += 1;
                    }
                    for _ in 0..3 {
                        let got = it.next().map(|x| (self.key)(x));
                        self.same(got, n, "next() after the end")?;
                        t.after += 1;
                        let got = it.nth(r.usize(5)).map(|x| (self.key)(x));
                        self.same(got, n, "nth() after the end")?;
                    }
                }
            }
        }
        self.announced(&it, pos, t)?;
        // whatever happened, the rest is the rest
        let got: Vec<K> = it.map(|x| (self.key)(x)).collect();
        ensure!(
            got == self.want[pos..],
            "{}: at {} of {} the rest has {} items",
            self.what,
            pos,
            n,
            got.len()
        );
        if steps >= 3 {
            t.sigs.push(t.sig.0);
        }
        Ok(())
    }
}

fn p19(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let mut t = Tally {
        drives: 0,
        ops: 0,
        past: 0,
        lens: 0,
        clones: 0,
        after: 0,
        sig: Fnv::new(),
        sigs: Vec::new(),
    };
    // chains of these many snapshots
    let sizes: Vec<usize> = match r.below(40) {
        0 => vec![],
        1 => vec![100 + r.usize(400)],
        2 => (0..30 + r.usize(60)).map(|_| 1).collect(),
        _ => (0..1 + r.usize(4)).map(|_| 1 + r.usize(5)).collect(),
    };
    let total: usize = sizes.iter().sum();
    let ts = names::instants(r, total);
    let mut files = bworld::Files::new();
    let mut fnames: Vec<FName> = Vec::new();
    let mut lists: Vec<Vec<Vec<Vec<u8>>>> = Vec::new(); // chain, snapshot, paths
    // what a snapshot says, by its time
    let mut says: BTreeMap<i64, (Option<String>, Vec<Vec<u8>>)> = BTreeMap::new();
    let mut at = 0;
    for n in &sizes {
        let mut rp = Replay::default();
        let mut ls = Vec::new();
        for i in 0..*n {
            let id = if i == 0 { (false, ts[at], ts[at]) } else { (true, ts[at - 1], ts[at]) };
            at += 1;
            let mut recs: Vec<Rec> = Vec::new();
            for _ in 0..(if *n > 20 { 1 } else { r.usize(9) }) {
                let path = format!("{}", r.below(20)).into_bytes();
                recs.push(Rec {
                    kind: *r.pick(&[Kind::Snap, Kind::Snap, Kind::Del]),
                    path,
                    typ: b'0',
                    mtime: 0,
                    uid: 0,
                    gid: 0,
                    uname: vec![],
                    gname: vec![],
                    mode: 0,
                    link: vec![],
                    body: vec![],
                });
            }
            recs.sort_by(|a, b| a.path.cmp(&b.path));
            recs.dedup_by(|a, b| a.path == b.path);
            let (tar, _) = tarw::write_tar(&recs, Eof::Two, |_| Enc::plain());
            rp.apply(&recs);
            ls.push(rp.list().into_iter().map(|e| e.path).collect());
            let f = names::make(id, Part::Sig, false, "", Case::Upper, r);
            files.insert(f.text.clone().into_bytes(), Arc::new(tar));
            fnames.push(f);
            let mut host = None;
            if r.bool() {
                let f = names::make(id, Part::Man, false, "", Case::Upper, r);
                let man = manif::Man {
                    host: format!("host{}", at),
                    dir: b"/".to_vec(),
                    vols: Vec::new(),
                };
                host = Some(man.host.clone());
                files.insert(f.text.clone().into_bytes(), Arc::new(manif::write(&man, &manif::Style::plain(), r)));
                fnames.push(f);
            }
            says.insert(id.2, (host, rp.list().into_iter().map(|e| e.path).collect()));
        }
        lists.push(ls);
    }
    let listed: Vec<&str> = fnames.iter().map(|f| &f.text[..]).collect();
    c.note(|| format!("sizes {:?}\n{}", sizes, listed.join("\n")));
    let be = Mem::new(&files);
    let b = bworld::open(be.clone())?;
    let m = names::model(&fnames);
    let r = &mut c.rng;
    let full_at: Vec<i64> = m.chains.iter().filter(|c| !c.sets[0].inc()).map(|c| c.sets[0].end()).collect();
    // the snapshots of the backup
    let ends: Vec<i64> = m.chains.iter().flat_map(|c| c.sets.iter().map(|s| s.end())).collect();
    let snaps = b.snapshots().map_err(|e| e.to_string())?;
    let coll = snaps.as_collections();
    let d = Drv {
        what: "snapshots of a backup",
        mk: &|| match b.snapshots() {
            Ok(s) => s.into_iter(),
            Err(e) => panic!("snapshots() failed: {}", e),
        },
        key: &|s: ruplicity::Snapshot| s.time().sec,
        clone: None,
        len: None,
        want: &ends,
    };
    for _ in 0..2 {
        d.drive(r, &mut t)?;
    }
    // the same, known by what they say
    type Says = (i64, bool, Option<String>, Option<Vec<Vec<u8>>>);
    let deep = total <= 40;
    let want: Vec<Says> = ends
        .iter()
        .enumerate()
        .map(|(i, e)| match says.get(e) {
            Some((h, l)) => (*e, i == 0 || full_at.contains(e), h.clone(), if deep { Some(l.clone()) } else { None }),
            None => crate::hbug!("no set ends at {}", e),
        })
        .collect();
    let d = Drv {
        what: "snapshots of a backup, with their contents",
        mk: &|| match b.snapshots() {
            Ok(s) => s.into_iter(),
            Err(e) => panic!("snapshots() failed: {}", e),
        },
        key: &|s: ruplicity::Snapshot| -> Says {
            let h = s.manifest().ok().map(|m| m.hostname().to_owned());
            let l = if deep {
                s.entries()
                    .ok()
                    .map(|e| e.as_signature().map(|x| x.path_bytes().to_vec()).collect())
            } else {
                None
            };
            (s.time().sec, s.is_full(), h, l)
        },
        clone: None,
        len: None,
        want: &want,
    };
    for _ in 0..2 {
        d.drive(r, &mut t)?;
    }
    // chains, sets, signature files
    let chains: Vec<i64> = m.chains.iter().map(|c| c.end()).collect();
    let d = Drv {
        what: "backup chains",
        mk: &|| coll.backup_chains(),
        key: &|x: &ruplicity::collections::BackupChain| x.end_time().sec,
        clone: Some(&|x| x.clone()),
        len: Some(&|x| x.len()),
        want: &chains,
    };
    d.drive(r, &mut t)?;
    for (k, ch) in coll.backup_chains().enumerate().take(6) {
        let want: Vec<i64> = m.chains[k].sets[1..].iter().map(|s| s.end()).collect();
        let d = Drv {
            what: "incremental sets",
            mk: &|| ch.inc_sets(),
            key: &|x: &ruplicity::collections::BackupSet| x.end_time().sec,
            clone: Some(&|x| x.clone()),
            len: Some(&|x| x.len()),
            want: &want,
        };
        d.drive(r, &mut t)?;
    }
    let starts: Vec<i64> = m.sigs.iter().map(|s| s[0].id.1).collect();
    let d = Drv {
        what: "signature chains",
        mk: &|| coll.signature_chains(),
        key: &|x: &ruplicity::collections::SignatureChain| x.start_time().sec,
        clone: Some(&|x| x.clone()),
        len: Some(&|x| x.len()),
        want: &starts,
    };
    d.drive(r, &mut t)?;
    for (k, sc) in coll.signature_chains().enumerate().take(6) {
        let want: Vec<String> = m.sigs[k][1..].iter().map(|f| f.text.clone()).collect();
        let d = Drv {
            what: "signature files",
            mk: &|| sc.inc_signatures(),
            key: &|x: &ruplicity::collections::SignatureFile| x.file_name.clone(),
            clone: Some(&|x| x.clone()),
            len: Some(&|x| x.len()),
            want: &want,
        };
        d.drive(r, &mut t)?;
        // the snapshots of a signature chain, known by what they list
        let low = Chain::from_sigchain(sc, &be).map_err(|e| e.to_string())?;
        let mine = match lists.iter().zip(&sizes).enumerate().find(|(i, _)| {
            let first: usize = sizes[..*i].iter().sum();
            ts[first] == sc.start_time().sec
        }) {
            Some((_, (l, _))) => l,
            None => crate::hbug!("unknown chain"),
        };
        let paths = |e: ruplicity::signatures::SnapshotEntries| -> Vec<Vec<u8>> {
            e.map(|x| x.path_bytes().to_vec()).collect()
        };
        let d = Drv {
            what: "snapshots of a signature chain",
            mk: &|| low.snapshots(),
            key: &|x: ruplicity::signatures::Snapshot| paths(x.files()),
            clone: None,
            len: Some(&|x| x.len()),
            want: mine,
        };
        for _ in 0..3 {
            d.drive(r, &mut t)?;
        }
        for _ in 0..3 {
            let i = r.usize(mine.len());
            let s = match low.snapshots().nth(i) {
                Some(s) => s,
                None => return Err(format!("no snapshot {}", i)),
            };
            let d = Drv {
                what: "entries of a snapshot",
                mk: &|| s.files(),
                key: &|x: ruplicity::signatures::Entry| x.path_bytes().to_vec(),
                clone: Some(&|x| x.clone()),
                len: None,
                want: &mine[i],
            };
            d.drive(r, &mut t)?;
        }
    }
    // a chain with nothing in it
    let none = Chain::new();
    let d = Drv {
        what: "snapshots of an empty signature chain",
        mk: &|| none.snapshots(),
        key: &|_: ruplicity::signatures::Snapshot| 0u8,
        clone: None,
        len: Some(&|x| x.len()),
        want: &[],
    };
    d.drive(r, &mut t)?;
    c.count("drives", t.drives);
    c.count("operations compared", t.ops);
    c.count("nth past the end", t.past);
    c.count("announced lengths compared", t.lens);
    c.count("clones driven", t.clones);
    c.count("calls after the end", t.after);
    c.max("snapshots in a backup", total as u64);
    for s in &t.sigs {
        c.distinct(*s);
    }
    c.sample(|| format!("chains of {:?} snapshots: {} drives, {} operations", sizes, t.drives, t.ops));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// A scratch directory, removed at the end.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: u64) -> Scratch {
        let base = match std::env::var_os("TMPDIR") {
            Some(d) => PathBuf::from(d),
            None => std::env::temp_dir(),
        };
        let p = base.join(format!("rv-p20-{}-{}", std::process::id(), tag));
        if let Err(e) = fs::create_dir_all(&p) {
            crate::hbug!("cannot create {}: {}", p.display(), e);
        }
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Everything about a directory tree that an observer can see, except access times.
fn picture(dir: &Path) -> BTreeMap<PathBuf, String> {
    fn walk(p: &Path, out: &mut BTreeMap<PathBuf, String>) {
        let md = match fs::symlink_metadata(p) {
            Ok(m) => m,
            Err(e) => crate::hbug!("{}: {}", p.display(), e),
        };
        let mut s = format!(
            "{:?} mode {:o} size {} links {} inode {} mtime {}.{} ctime {}.{}",
            md.file_type(),
            md.mode(),
            md.len(),
            md.nlink(),
            md.ino(),
            md.mtime(),
            md.mtime_nsec(),
            md.ctime(),
            md.ctime_nsec()
        );
        if md.file_type().is_symlink() {
            s.push_str(&format!(" to {:?}", fs::read_link(p).ok()));
        }
        if md.is_file() {
            // without touching the time of the last access
            let mut d = Vec::new();
            let f = fs::OpenOptions::new().read(true).custom_flags(libc::O_NOATIME).open(p);
            let _ = f.or_else(|_| fs::File::open(p)).and_then(|mut f| f.read_to_end(&mut d));
            s.push_str(&format!(" hash {:x}", crate::util::hash(&d)));
        }
        out.insert(p.to_owned(), s);
        if md.is_dir() {
            let rd = match fs::read_dir(p) {
                Ok(r) => r,
                Err(e) => crate::hbug!("{}: {}", p.display(), e),
            };
            for e in rd.flatten() {
                walk(&e.path(), out);
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, &mut m);
    m
}

pub fn put(p: &Path, data: &[u8]) {
    let r = fs::File::create(p).and_then(|mut f| f.write_all(data));
    if let Err(e) = r {
        crate::hbug!("{}: {}", p.display(), e);
    }
}

fn os(b: &[u8]) -> OsString {
    OsString::from_vec(b.to_vec())
}

fn listed(be: &LocalBackend) -> io::Result<Vec<Vec<u8>>> {
    let mut v: Vec<Vec<u8>> = be
        .file_names()?
        .into_iter()
        .map(|n| n.as_os_str().as_bytes().to_vec())
        .collect();
    v.sort();
    Ok(v)
}

fn p20(c: &mut Ctx) -> R {
    let case = c.idx;
    let r = &mut c.rng;
    let scratch = Scratch::new(case);
    // directories have all kinds of names
    let odd_name: Vec<u8> = match r.below(3) {
        0 => b"backup".to_vec(),
        1 => r
            .pick(&[
                &b"caf\xe9 \xff"[..],
                b"\xf0\x9f",
                b" ",
                b"a b\tc",
                b"%20",
                b"~",
                b"-",
                b"...",
                b"$HOME",
                b"*",
                b"back\\slash",
                b"new\nline",
                "Gr\u{f6}\u{df}e".as_bytes(),
                b"x.tar.gz",
                b"file:",
                b"DUPLICITY-full.20150617T182545Z.manifest",
            ])
            .to_vec(),
        _ => {
            let mut n = crate::world::component(r, false);
            n.retain(|b| *b != b'/' && *b != 0);
            n.truncate(200);
            if n.is_empty() || n == b"." || n == b".." || n.starts_with(b"elsewhere-") || n == b"link-to-backup" {
                n = b"backup".to_vec();
            }
            n
        }
    };
    let dir = scratch.0.join(os(&odd_name));
    let mkdir = |p: &Path| {
        if let Err(e) = fs::create_dir(p) {
            crate::hbug!("{}: {}", p.display(), e);
        }
    };
    mkdir(&dir);
    let mut cfg = WCfg::tame();
    cfg.chains = 2;
    cfg.snaps = 3;
    cfg.fs.ops = 4;
    let mut w = if r.chance(1, 20) {
        bworld::BWorld {
            names: vec![],
            files: Default::default(),
            recs: Default::default(),
            mans: Default::default(),
        }
    } else {
        bworld::build(r, &cfg)
    };
    let mut content: BTreeMap<Vec<u8>, Option<Vec<u8>>> = BTreeMap::new();
    // a folder where a file is expected, a dangling link, a link to a file elsewhere
    let mut memory = w.clone();
    let mut odd = 0;
    for f in w.names.clone() {
        let name = f.text.clone().into_bytes();
        let data = w.files[&name].to_vec();
        let p = dir.join(&f.text);
        match r.below(40) {
            0 => {
                mkdir(&p);
                odd += 1;
            }
            1 => {
                if symlink("nowhere", &p).is_err() {
                    crate::hbug!("symlink");
                }
                odd += 1;
            }
            2 => {
                let t = scratch.0.join(format!("elsewhere-{}", content.len()));
                put(&t, &data);
                if symlink(&t, &p).is_err() {
                    crate::hbug!("symlink");
                }
                content.insert(name, Some(data));
                continue;
            }
            _ => {
                put(&p, &data);
                content.insert(name, Some(data));
                continue;
            }
        }
        // not readable as a file
        memory.files.remove(&name);
        content.insert(name, None);
        match f.part {
            Part::Man => {
                w.mans.remove(&f.id);
            }
            _ => (),
        }
    }
    // other names
    if r.chance(1, 150) {
        // more entries than any fixed buffer holds
        for i in 0..4200 + r.usize(6000) {
            let n = format!("z{:x}", i).into_bytes();
            put(&dir.join(os(&n)), b"");
            content.insert(n, Some(vec![]));
        }
    }
    let many = if r.chance(1, 30) { 700 } else { r.usize(14) };
    for _ in 0..many {
        let mut n = match r.below(3) {
            0 => names::foreign(r),
            _ => crate::world::component(r, false),
        };
        n.retain(|b| *b != b'/' && *b != 0);
        n.truncate(255);
        if r.chance(1, 6) {
            n.insert(0, b'.');
        }
        n.truncate(255);
        if n.is_empty() || n == b"." || n == b".." || content.contains_key(&n) {
            continue;
        }
        let p = dir.join(os(&n));
        match r.below(5) {
            0 => {
                mkdir(&p);
                put(&p.join("inside"), b"x");
                content.insert(n, None);
            }
            1 => {
                if symlink("missing-target", &p).is_err() {
                    crate::hbug!("symlink");
                }
                content.insert(n, None);
            }
            2 => {
                let s = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap_or_default();
                if unsafe { libc::mkfifo(s.as_ptr(), 0o600) } != 0 {
                    crate::hbug!("mkfifo");
                }
                content.insert(n, None);
            }
            _ => {
                let k = *r.pick(&[0usize, 1, 100, 8192, 70_000]);
                let data = r.bytes(k);
                put(&p, &data);
                if r.chance(1, 4) {
                    let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o444));
                }
                content.insert(n, Some(data));
            }
        }
    }
    c.note(|| {
        content
            .iter()
            .map(|(n, d)| format!("{} {:?}", esc(n), d.as_ref().map(|d| d.len())))
            .collect::<Vec<_>>()
            .join("\n")
    });
    // files written and read at any time
    let r = &mut c.rng;
    for (n, d) in &content {
        if d.is_some() && r.bool() {
            let at = |r: &mut Rng| {
                let s = *r.pick(&[0i64, 1, 1_000_000_000, 1_500_000_000, 1_600_000_000, 2_000_000_000, 4_000_000_000]);
                std::time::SystemTime::UNIX_EPOCH + std::time::Duration::new(s as u64, r.below(1_000_000_000) as u32)
            };
            let times = fs::FileTimes::new().set_accessed(at(r)).set_modified(at(r));
            if let Ok(f) = fs::File::open(dir.join(os(n))) {
                let _ = f.set_times(times);
            }
        }
    }
    let before = picture(&scratch.0);
    let all: Vec<Vec<u8>> = content.keys().cloned().collect();
    // ways to name the directory
    let link = scratch.0.join("link-to-backup");
    if symlink(&dir, &link).is_err() {
        crate::hbug!("symlink");
    }
    let before_link = picture(&scratch.0);
    let r = &mut c.rng;
    let old = std::env::current_dir().unwrap_or(PathBuf::from("/"));
    let base: PathBuf = match r.below(5) {
        0 => dir.clone(),
        1 => {
            let mut s = dir.clone().into_os_string();
            s.push("/");
            PathBuf::from(s)
        }
        2 => link.clone(),
        3 => {
            let _ = std::env::set_current_dir(&scratch.0);
            PathBuf::from(os(&odd_name))
        }
        _ => {
            let _ = std::env::set_current_dir(&dir);
            PathBuf::from(".")
        }
    };
    let res = p20_queries(c, &base, &content, &all, &w, &memory, odd, &scratch.0);
    let _ = std::env::set_current_dir(&old);
    res.map_err(|e| format!("base {:?}: {}", base, e))?;
    let after = picture(&scratch.0);
    if after != before_link {
        for (p, s) in &before_link {
            match after.get(p) {
                None => return Err(format!("{} disappeared", p.display())),
                Some(t) if t != s => return Err(format!("{} changed: {} became {}", p.display(), s, t)),
                _ => (),
            }
        }
        for p in after.keys() {
            if !before_link.contains_key(p) {
                return Err(format!("{} appeared", p.display()));
            }
        }
    }
    // the directory itself goes on changing: the backend follows
    let late = dir.join("late-file");
    put(&late, b"late");
    let be = LocalBackend::new(&dir);
    let mut want = all.clone();
    want.push(b"late-file".to_vec());
    want.sort();
    let got = listed(&be).map_err(|e| e.to_string())?;
    ensure!(got == want, "a new file is not listed exactly once");
    put(&late, b"changed");
    let mut s = String::new();
    let ok = be.open_file(Path::new("late-file")).and_then(|mut f| f.read_to_string(&mut s));
    ensure!(ok.is_ok() && s == "changed", "an updated file reads as {:?}", s);
    if fs::remove_file(&late).is_err() {
        crate::hbug!("remove");
    }
    ensure!(be.open_file(Path::new("late-file")).is_err(), "a removed file opens");
    let got = listed(&be).map_err(|e| e.to_string())?;
    ensure!(got == all, "a removed file is still listed");
    c.count("directories", 1);
    let mut h = Fnv::new();
    for (p, s) in &before {
        h.add(p.as_os_str().as_bytes());
        h.add(s.split(" inode").next().unwrap_or("").as_bytes());
    }
    c.distinct(h.0);
    c.sample(|| format!("{} names, {} of the backup's own that are not files; base {:?}", all.len(), odd, base));
    Ok(())
}

fn p20_queries(
    c: &mut Ctx,
    base: &Path,
    content: &BTreeMap<Vec<u8>, Option<Vec<u8>>>,
    all: &[Vec<u8>],
    w: &bworld::BWorld,
    memory: &bworld::BWorld,
    odd: usize,
    scratch: &Path,
) -> R {
    hooks::reset_opens();
    let be = LocalBackend::new(base);
    hooks::fail_readdir(None);
    let got = listed(&be).map_err(|e| format!("listing failed: {}", e))?;
    let (calls, _) = hooks::readdir_stats();
    if got != all {
        let extra = got.iter().find(|n| !content.contains_key(*n));
        let miss = all.iter().find(|n| !got.contains(n));
        return Err(format!(
            "{} names listed instead of {} (surplus {:?}, missing {:?})",
            got.len(),
            all.len(),
            extra.map(|n| esc(n)),
            miss.map(|n| esc(n))
        ));
    }
    c.count("names listed", got.len() as u64);
    // every file gives its bytes
    let mut reads = 0;
    for (n, d) in content {
        if let Some(want) = d {
            let mut v = Vec::new();
            let r = be
                .open_file(Path::new(&os(n)))
                .and_then(|mut f| f.read_to_end(&mut v));
            if let Err(e) = r {
                return Err(format!("reading {} failed: {}", esc(n), e));
            }
            ensure!(v == *want, "{} reads as {} bytes instead of {}", esc(n), v.len(), want.len());
            reads += 1;
        }
    }
    c.count("files read", reads);
    // what does not exist is an error
    let mut missing = 0;
    for n in ["does-not-exist", "duplicity-full.20150617T182545Z.manifest-", "sub/none"] {
        // by chance there could be something of that name
        let first = n.split('/').next().unwrap_or(n);
        if fs::symlink_metadata(base.join(first)).is_ok() {
            continue;
        }
        match be.open_file(Path::new(n)) {
            Err(ref e) if e.kind() == io::ErrorKind::NotFound => missing += 1,
            Err(e) => return Err(format!("{} gives {:?} instead of NotFound", n, e)),
            Ok(_) => return Err(format!("{} opens", n)),
        }
    }
    for bad in [scratch.join("no-such-directory"), scratch.join("no/such/directory"), scratch.join("plain-file")] {
        // the last one is a file, not a directory
        let isfile = bad.ends_with("plain-file");
        if isfile {
            match content.iter().find(|(n, d)| d.is_some() && !n.is_empty()) {
                Some((n, _)) => {
                    let be = LocalBackend::new(base.join(os(n)));
                    ensure!(be.file_names().is_err(), "a file lists as a directory");
                    ensure!(ruplicity::Backup::new(be).is_err(), "a file opens as a backup");
                }
                None => (),
            }
            continue;
        }
        let be = LocalBackend::new(&bad);
        match be.file_names() {
            Err(ref e) if e.kind() == io::ErrorKind::NotFound => missing += 1,
            Err(e) => return Err(format!("listing {} gives {:?} instead of NotFound", bad.display(), e)),
            Ok(_) => return Err(format!("{} lists", bad.display())),
        }
        ensure!(ruplicity::Backup::new(be).is_err(), "{} opens as a backup", bad.display());
        ensure!(!bad.exists(), "{} was created", bad.display());
    }
    c.count("errors for missing files", missing);
    // the whole backup: the same answers as from memory
    let xs = {
        // what cannot be read in the directory

        let mut unread: Vec<names::Id> = Vec::new();
        for f in &w.names {
            if f.part == Part::Sig && content.get(f.text.as_bytes()).map_or(true, |d| d.is_none()) {
                unread.push(f.id);
            }
        }
        let mut xs = w.expected();
        // an unreadable signature fails its whole chain (TODO(#4) of the library)
        let bad: Vec<usize> = xs.iter().filter(|x| unread.contains(&x.set.id)).map(|x| x.chain).collect();
        for x in &mut xs {
            if bad.contains(&x.chain) {
                x.entries = None;
            }
        }

        xs
    };
    let b = bworld::open(be)?;
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == xs.len(), "{} snapshots, expected {}", ss.len(), xs.len());
    let mut cmp = 0;
    for (i, (s, x)) in ss.iter().zip(&xs).enumerate() {
        bworld::check_snap(s, x).map_err(|e| format!("snapshot {}: {}", i, e))?;
        let lazy = x.entries.is_none();
        // earlier snapshots of a damaged chain may or may not be available
        let full = w.expected();
        match s.entries() {
            Ok(e) => {
                let got = model::listing(e.as_signature(), model::CAP)?;
                match full[i].entries {
                    Some(ref want) => model::diff(&got, want, true).map_err(|e| format!("snapshot {}: {}", i, e))?,
                    None => return Err(format!("snapshot {}: entries given", i)),
                }
            }
            Err(e) => ensure!(lazy, "snapshot {}: entries() failed: {}", i, e),
        }
        bworld::check_manifest(s, x).map_err(|e| format!("snapshot {}: {}", i, e))?;
        cmp += 2;
    }
    if odd == 0 {
        let mem = bworld::open(Mem::with_names(&memory.files, all.to_vec()))?;
        let vols = [0, 1, 2, 3];
        let a = p05::dump(ss_coll(&b)?, &vols);
        let z = p05::dump(ss_coll(&mem)?, &vols);
        ensure!(a == z, "the collection differs from the one in memory");
        let ms = bworld::snaps(&mem)?;
        for (i, (s, m)) in ss.iter().zip(&ms).enumerate() {
            let (x, y) = match (s.entries(), m.entries()) {
                (Ok(x), Ok(y)) => (x.to_string(), y.to_string()),
                _ => return Err(format!("snapshot {}: entries fail", i)),
            };
            ensure!(x == y, "snapshot {}: the listing differs from the one in memory", i);
            let (x, y) = match (s.manifest(), m.manifest()) {
                (Ok(x), Ok(y)) => (format!("{:?}", x), format!("{:?}", y)),
                _ => return Err(format!("snapshot {}: manifests fail", i)),
            };
            ensure!(x == y, "snapshot {}: the manifest differs from the one in memory", i);
            cmp += 2;
        }
    }
    c.count("queries compared with memory", cmp);
    let (opens, writes) = hooks::opens();
    ensure!(writes == 0, "{} of {} opens could write", writes, opens);
    c.count("opens watched", opens as u64);
    // the directory reading fails half-way
    if hooks::hooked() {
        let be = LocalBackend::new(base);
        let mut at: Vec<i64> = vec![0, calls - 1];
        for _ in 0..2 {
            at.push(c.rng.below(calls.max(1) as u64) as i64);
        }
        for k in at {
            if k < 0 {
                continue;
            }
            hooks::fail_readdir(Some(k));
            let r = listed(&be);
            let (_, done) = hooks::readdir_stats();
            hooks::fail_readdir(Some(k));
            let b = ruplicity::Backup::new(LocalBackend::new(base)).map(|_| ());
            let (_, done2) = hooks::readdir_stats();
            hooks::fail_readdir(None);
            if done > 0 {
                match r {
                    Err(ref e) if e.raw_os_error() == Some(libc::EIO) => (),
                    Err(e) => return Err(format!("the reading of the directory failed with EIO, reported as {:?}", e)),
                    Ok(v) => {
                        return Err(format!(
                            "the reading of the directory failed at entry {} of {}, and {} names were listed without error",
                            k,
                            calls,
                            v.len()
                        ))
                    }
                }
                c.count("failures of the directory reading", 1);
            }
            if done2 > 0 {
                ensure!(b.is_err(), "the reading of the directory failed at entry {}, and the backup opened", k);
            }
        }
        let again = listed(&be).map_err(|e| format!("listing after a failure: {}", e))?;
        ensure!(again == all, "after a failure the names differ");
    }

    Ok(())
}

fn ss_coll<B: Backend>(b: &ruplicity::Backup<B>) -> Result<&Collections, String> {
    match b.snapshots() {
        Ok(s) => Ok(s.as_collections()),
        Err(e) => Err(e.to_string()),
    }
}
