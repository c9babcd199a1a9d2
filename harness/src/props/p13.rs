//! P13 (backend failures), P14 (lazy and frugal access), P15 (handles held together).

use crate::be::{self, Ev, Fault, Mem};
use crate::bworld::{self, BWorld, WCfg, XSnap};
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::hooks;
use crate::manif;
use crate::model::{self, Ent};
use crate::names::{self, Case, Part};
use crate::props::p19::{put, Scratch};
use crate::sup::Prop;
use crate::util::{esc, Rng};
use ruplicity::backend::local::LocalBackend;
use ruplicity::manifest::ParseError;
use ruplicity::{Backup, ManifestRef, Snapshot, SnapshotEntries};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::io;
use std::os::unix::ffi::OsStrExt;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P13",
            f: p13,
            quick: 1000,
            thorough: 12000,
            level: "fault_enumeration",
            rule: "a case is a backup and a sequence of queries; the sequence is run once per operation of the backend (listing, opens and reads) with that operation failing (one of ten kinds of error or an OS error, for 1-4 consecutive operations), and several times with failures at random; distinct by (sequence, failing operation), non-trivial if the failure hit",
            need: &[("failures hit", 15_000), ("failed reads", 5_000), ("failed opens", 2_000), ("failed listings", 400), ("failed directory readings", 500), ("failed reads of local files", 60), ("queries retried after recovery", 15_000), ("earlier results re-checked", 15_000)],
            assumptions: &["an error of kind Interrupted is a request to retry (P22)"],
        },
        Prop {
            id: "P14",
            f: p14,
            quick: 9000,
            thorough: 60000,
            level: "exploration",
            rule: "a case is a backup and a random sequence of queries (walks, displays, entries, manifests, repeated, through several Snapshots values) observed at the backend boundary; distinct by (backup, sequence), non-trivial if a query was repeated",
            need: &[("queries observed", 40_000), ("files opened", 10_000), ("queries answered without opening anything", 15_000)],
            assumptions: &[],
        },
        Prop {
            id: "P15",
            f: p15,
            quick: 9000,
            thorough: 60000,
            level: "exploration",
            rule: "a case is a backup, possibly with missing or malformed files or failing operations, and a random sequence of requests, partial iterations, re-checks and drops over any number of handles (once, more than 131072 at the same time); distinct by sequence, non-trivial if two handles were alive during a request",
            need: &[("requests with other handles alive", 20_000), ("handles re-checked", 30_000), ("failing requests with handles alive", 2_000), ("iterators advanced while other handles come and go", 20_000)],
            assumptions: &[],
        },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Q {
    Entries(usize),
    Manifest(usize),
}

enum Got {
    Ok,
    /// kind and text
    Io(io::ErrorKind, String),
    Parse(String),
}

/// Runs one query and compares a success with what is expected.
fn ask(ss: &[Snapshot], xs: &[XSnap], q: Q) -> Result<Got, String> {
    match q {
        Q::Entries(i) => match ss[i].entries() {
            Ok(e) => {
                let got = model::listing(e.as_signature(), model::CAP)?;
                match xs[i].entries {
                    Some(ref want) => model::diff(&got, want, true)?,
                    None => return Err(format!("entries of snapshot {} given, but its files are missing", i)),
                }
                Ok(Got::Ok)
            }
            Err(e) => Ok(Got::Io(e.kind(), e.to_string())),
        },
        Q::Manifest(i) => match ss[i].manifest() {
            Ok(m) => {
                match xs[i].manifest {
                    Some(ref want) => manif::compare(&m, want)?,
                    None => return Err(format!("manifest of snapshot {} given, but it is missing", i)),
                }
                Ok(Got::Ok)
            }
            Err(ParseError::Io(e)) => Ok(Got::Io(e.kind(), e.to_string())),
            Err(e) => Ok(Got::Parse(format!("{:?}", e))),
        },
    }
}

fn must_work(xs: &[XSnap], q: Q) -> bool {
    match q {
        Q::Entries(i) => xs[i].entries.is_some(),
        Q::Manifest(i) => xs[i].manifest.is_some(),
    }
}

fn small_world(r: &mut Rng, big: bool) -> BWorld {
    let mut cfg = WCfg::tame();
    cfg.chains = 2;
    cfg.snaps = 3;
    cfg.fs.ops = if big { 30 } else { 4 };
    cfg.fs.max_nodes = if big { 150 } else { 12 };
    cfg.plain_enc = r.bool();
    bworld::build(r, &cfg)
}

fn queries(r: &mut Rng, n: usize, k: usize) -> Vec<Q> {
    (0..k)
        .map(|_| {
            let i = r.usize(n);
            if r.chance(3, 5) {
                Q::Entries(i)
            } else {
                Q::Manifest(i)
            }
        })
        .collect()
}

fn fault(r: &mut Rng, at: u64) -> Fault {
    Fault {
        at,
        len: *r.pick(&[1, 1, 1, 2, 4]),
        kind: be::kind(r),
        msg: format!("injected failure {}", r.below(1000)),
        os: if r.chance(1, 4) {
            // EIO, EACCES, ENOENT, ENOSPC, ESTALE, ETIMEDOUT
            Some(*r.pick(&[5, 13, 2, 28, 116, 110]))
        } else {
            None
        },
    }
}

#[derive(Default)]
struct Tally {
    hit: u64,
    reads: u64,
    opens: u64,
    lists: u64,
    retried: u64,
    rechecked: u64,
}

/// whether the file is a signature of a later snapshot of the same chain
fn later_sig(xs: &[XSnap], i: usize, file: &[u8]) -> bool {
    xs.iter().enumerate().any(|(j, x)| {
        j > i && x.chain == xs[i].chain && x.set.sig.as_ref().map_or(false, |s| s.text.as_bytes() == file)
    })
}

/// One run of a sequence of queries over a backend that may fail.
fn faulty_run(be: &Mem, xs: &[XSnap], seq: &[Q], t: &mut Tally) -> R {
    // opening
    let mut tries = 0;
    let b = loop {
        let before = be.with(|s| s.errors.len());
        let r = Backup::new(be.clone());
        let errs: Vec<(io::ErrorKind, String)> = be.with(|s| s.errors[before..].to_vec());
        match r {
            Ok(b) => {
                ensure!(errs.is_empty(), "Backup::new succeeded although {:?} happened", errs);
                break b;
            }
            Err(e) => {
                ensure!(
                    errs.contains(&(e.kind(), e.to_string())),
                    "Backup::new failed with {:?} ({}), but the failures were {:?}",
                    e.kind(),
                    e,
                    errs
                );
                t.hit += 1;
                t.lists += 1;
            }
        }
        tries += 1;
        if tries > 500 {
            return Ok(());
        }
    };
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == xs.len(), "{} snapshots, expected {}", ss.len(), xs.len());
    // handles obtained during the run, to be checked again at the end
    let mut ents: Vec<(usize, SnapshotEntries)> = Vec::new();
    let mut mans: Vec<(usize, ManifestRef)> = Vec::new();
    let mut failed: BTreeSet<(bool, usize)> = BTreeSet::new();
    for (step, q) in seq.iter().enumerate() {
        let before = be.with(|s| s.errors.len());
        let got = ask(&ss, xs, *q).map_err(|e| format!("step {} {:?}: {}", step, q, e))?;
        let errs: Vec<(io::ErrorKind, String)> = be.with(|s| s.errors[before..].to_vec());
        let work = must_work(xs, *q);
        match got {
            Got::Ok => {
                // only the failure of a file that the answer does not need may go unnoticed
                let files: Vec<Vec<u8>> = be.with(|s| s.error_files[before..].to_vec());
                let unneeded = match *q {
                    Q::Entries(i) => files.iter().all(|f| later_sig(xs, i, f)),
                    _ => errs.is_empty(),
                };
                ensure!(
                    unneeded,
                    "step {} {:?} succeeded although {:?} happened while it was reading",
                    step,
                    q,
                    errs
                );
                let key = match *q {
                    Q::Entries(i) => (true, i),
                    Q::Manifest(i) => (false, i),
                };
                if failed.remove(&key) {
                    t.retried += 1;
                }
            }
            Got::Io(k, ref m) => {
                if errs.is_empty() {
                    ensure!(!work, "step {} {:?} failed ({:?} {}) without any failure of the backend", step, q, k, m);
                } else {
                    ensure!(
                        errs.contains(&(k, m.clone())),
                        "step {} {:?} failed with {:?} ({}), but the failures were {:?}",
                        step,
                        q,
                        k,
                        m,
                        errs
                    );
                    t.hit += errs.len() as u64;
                    match be.with(|s| s.fault_op) {
                        Some("open") => t.opens += 1,
                        Some("read") => t.reads += 1,
                        _ => (),
                    }
                    failed.insert(match *q {
                        Q::Entries(i) => (true, i),
                        Q::Manifest(i) => (false, i),
                    });
                }
            }
            Got::Parse(ref m) => {
                ensure!(
                    errs.is_empty() && !work,
                    "step {} {:?}: parse error {} (failures of the backend: {:?})",
                    step,
                    q,
                    m,
                    errs
                );
            }
        }
        // keep some handles alive across the failures
        if let (Got::Ok, true) = (&got, step % 2 == 0) {
            match *q {
                Q::Entries(i) => {
                    if let Ok(e) = ss[i].entries() {
                        ents.push((i, e));
                    }
                }
                Q::Manifest(i) => {
                    if let Ok(m) = ss[i].manifest() {
                        mans.push((i, m));
                    }
                }
            }
        }
        // what was obtained earlier is still there
        for (i, e) in ents.iter().rev().take(2) {
            let got = model::listing(e.as_signature(), model::CAP)?;
            if let Some(ref want) = xs[*i].entries {
                model::diff(&got, want, true)
                    .map_err(|e| format!("entries obtained before step {} changed: {}", step, e))?;
            }
            t.rechecked += 1;
        }
        for (i, m) in mans.iter().rev().take(2) {
            if let Some(ref want) = xs[*i].manifest {
                manif::compare(m, want)
                    .map_err(|e| format!("manifest obtained before step {} changed: {}", step, e))?;
            }
            t.rechecked += 1;
        }
    }
    // the backend recovers: everything is available
    be.with(|s| {
        s.fault = None;
        s.fault_one_in = 0;
    });
    for i in 0..ss.len() {
        for q in [Q::Entries(i), Q::Manifest(i)] {
            let got = ask(&ss, xs, q).map_err(|e| format!("after recovery {:?}: {}", q, e))?;
            match got {
                Got::Ok => (),
                Got::Io(_, m) | Got::Parse(m) => {
                    ensure!(!must_work(xs, q), "after recovery {:?} still fails: {}", q, m)
                }
            }
            t.retried += 1;
        }
    }
    Ok(())
}

fn p13(c: &mut Ctx) -> R {
    let big = c.idx % 10 == 3;
    let w = small_world(&mut c.rng, big);
    let xs = w.expected();
    let k = 3 + c.rng.usize(5);
    let seq = queries(&mut c.rng, xs.len(), k);
    c.note(|| format!("{}\nqueries {:?}", w.describe(), seq));
    // how the backend splits its data decides where it can fail
    let chunk = match c.rng.below(4) {
        0 => crate::be::Chunk::Fixed(100 + c.rng.usize(900)),
        1 => crate::be::Chunk::Random(4000),
        _ => crate::be::Chunk::Full,
    };
    let mem = |seed: u64| {
        let m = bworld::mem(&w);
        m.with(|s| {
            s.chunk = chunk.clone();
            s.rng = Rng::new(seed);
        });
        m
    };
    let mut t = Tally::default();
    let seed = c.rng.next();
    let be = mem(seed);
    faulty_run(&be, &xs, &seq, &mut t).map_err(|e| format!("without failures: {}", e))?;
    // the number of operations of the queries alone
    let be = mem(seed);
    {
        let b = bworld::open(be.clone())?;
        let ss = bworld::snaps(&b)?;
        for q in &seq {
            ask(&ss, &xs, *q)?;
        }
    }
    let ops = be.ops();
    let max = if c.thorough { 400 } else { 60 };
    let mut at: Vec<u64> = (0..ops).collect();
    if at.len() > max {
        c.rng.shuffle(&mut at);
        at.truncate(max);
        at.push(0);
    }
    for a in at {
        let f = fault(&mut c.rng, a);
        let be = mem(seed);
        be.set_fault(Some(f.clone()));
        let before = t.hit;
        faulty_run(&be, &xs, &seq, &mut t).map_err(|e| format!("failure at operation {} of {} ({:?}): {}", a, ops, f, e))?;
        if t.hit > before {
            let id = format!("{:?} {}", seq, a);
            c.distinct_of(&[id.as_bytes(), &w.hash().to_le_bytes()]);
        }
    }
    for _ in 0..4 {
        let s2 = c.rng.next();
        let be = mem(s2);
        let n = *c.rng.pick(&[2u64, 5, 10, 20]);
        be.with(|s| s.fault_one_in = n);
        faulty_run(&be, &xs, &seq, &mut t).map_err(|e| format!("failures at random (1 in {}, seed {}): {}", n, s2, e))?;
    }
    if hooks::hooked() && c.idx % 8 == 5 && !big {
        local(c, &w, &xs)?;
    }
    c.count("failures hit", t.hit);
    c.count("failed reads", t.reads);
    c.count("failed opens", t.opens);
    c.count("failed listings", t.lists);
    c.count("queries retried after recovery", t.retried);
    c.count("earlier results re-checked", t.rechecked);
    c.max("operations of a sequence", ops);
    c.sample(|| format!("{:?}: {} operations of the backend, {} failures hit", seq, ops, t.hit));
    Ok(())
}

/// The same over a directory: the system calls of the local backend fail one after the other.
fn local(c: &mut Ctx, w: &BWorld, xs: &[XSnap]) -> R {
    let scratch = Scratch::new(c.idx);
    for (n, d) in &w.files {
        put(&scratch.0.join(OsStr::from_bytes(n)), d);
    }
    let open = || Backup::new(LocalBackend::new(&scratch.0));
    hooks::fail_readdir(None);
    let b = open().map_err(|e| format!("the directory is not opened: {}", e))?;
    let (calls, _) = hooks::readdir_stats();
    bworld::check_all(&b, xs, true)?;
    for k in 0..calls.min(8) {
        let k = if k < 4 { k } else { c.rng.below(calls as u64) as i64 };
        hooks::fail_readdir(Some(k));
        let b = open();
        let (_, done) = hooks::readdir_stats();
        hooks::fail_readdir(None);
        if done > 0 {
            c.count("failed directory readings", 1);
            match b {
                Ok(b) => {
                    return Err(format!(
                        "reading the directory failed at entry {} of {}, and a backup with {} snapshots was opened",
                        k,
                        calls,
                        bworld::snaps(&b)?.len()
                    ))
                }
                Err(e) => ensure!(e.raw_os_error() == Some(libc::EIO), "EIO reported as {:?}", e),
            }
        }
    }
    // reads of files
    let ss = bworld::snaps(&b)?;
    if ss.is_empty() {
        return Ok(());
    }
    for _ in 0..4 {
        let i = c.rng.usize(ss.len());
        let fresh = open().map_err(|e| e.to_string())?;
        let fs = bworld::snaps(&fresh)?;
        ensure!(fs.len() == xs.len(), "{} snapshots, expected {}", fs.len(), xs.len());
        let ents = c.rng.chance(2, 3);
        let q = if ents { Q::Entries(i) } else { Q::Manifest(i) };
        let k = c.rng.below(12) as i64;
        hooks::fail_read(Some(k));
        let got: Result<(), Option<i32>> = match q {
            Q::Entries(i) => fs[i].entries().map(|_| ()).map_err(|e| e.raw_os_error()),
            Q::Manifest(i) => match fs[i].manifest() {
                Ok(_) => Ok(()),
                Err(ruplicity::manifest::ParseError::Io(e)) => Err(e.raw_os_error()),
                Err(_) => Err(None),
            },
        };
        let (_, done) = hooks::read_stats();
        hooks::fail_read(None);
        let at = |e: String| format!("read {} of {:?} failed: {}", k, q, e);
        if done > 0 {
            c.count("failed reads of local files", 1);
            // a failure in a later signature need not be an error of this snapshot
            let later = ents && i + 1 < xs.len() && xs[i + 1].chain == xs[i].chain;
            ensure!(got.is_err() || later, "{:?} succeeds although read {} of a file failed", q, k);
            if let Err(e) = got {
                ensure!(e == Some(libc::EIO), "{:?}: EIO at read {} is reported as {:?}", q, k, e);
            }
        }
        // it leaves no trace
        bworld::check_entries(&fs[i], &xs[i], true).map_err(at)?;
        bworld::check_manifest(&fs[i], &xs[i]).map_err(at)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn p14(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let mut cfg = WCfg::tame();
    cfg.chains = 3;
    cfg.snaps = if r.chance(1, 8) { 16 } else { 4 };
    cfg.fs.ops = 3;
    cfg.plain_enc = r.bool();
    let mut w = bworld::build(r, &cfg);
    let incomplete = r.chance(1, 4);
    if incomplete {
        // some files are missing
        let mut kept = Vec::new();
        for f in w.names.clone() {
            match r.below(10) {
                0 => {
                    w.files.remove(f.text.as_bytes());
                }
                1 if !f.enc => {
                    // there, but encrypted
                    w.files.remove(f.text.as_bytes());
                    let g = names::make(f.id, f.part, f.partial, ".gpg", Case::Upper, r);
                    w.files.insert(g.text.clone().into_bytes(), Arc::new(r.bytes(100)));
                    kept.push(g);
                }
                _ => kept.push(f),
            }
        }
        w.names = kept;
    }
    if r.bool() {
        // files which must never be opened
        for _ in 0..3 {
            w.files.insert(names::foreign(r), Arc::new(b"decoy".to_vec()));
        }
    }
    let xs = w.expected();
    c.note(|| w.describe());
    let be = bworld::mem(&w);
    let b = bworld::open(be.clone())?;
    let log = be.log();
    ensure!(
        log == [Ev::List(true)],
        "opening the backup made the backend see {:?}",
        show(&log)
    );
    let listed: BTreeSet<Vec<u8>> = w.files.keys().cloned().collect();
    let man_of: Vec<Option<String>> = xs.iter().map(|x| x.set.man.as_ref().map(|f| f.text.clone())).collect();
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == xs.len(), "{} snapshots, expected {}", ss.len(), xs.len());
    let again = bworld::snaps(&b)?;
    let mut opened: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
    let mut failed = false;
    let (mut free, mut total, mut repeated) = (0, 0, false);
    let mut seen: BTreeSet<(usize, u64)> = BTreeSet::new();
    let n = 6 + c.rng.usize(30);
    let mut seq = String::new();
    for step in 0..n {
        let before = be.log_len();
        let what = c.rng.below(9);
        let i = if ss.is_empty() { 0 } else { c.rng.usize(ss.len()) };
        if ss.is_empty() && what < 6 {
            continue;
        }
        let s = if c.rng.bool() { &ss } else { &again };
        let mut allowed: Vec<&str> = Vec::new();
        match what {
            0 | 1 | 2 => {
                // entries, possibly more than needed
                allowed.extend(xs[i].sig_files.iter().map(|f| &f[..]));
                failed |= bworld::check_entries(&s[i], &xs[i], true).is_err() || xs[i].entries.is_none();
                if what == 2 {
                    if let Ok(e) = s[i].entries() {
                        let _ = e.to_string();
                        let _ = e.as_signature().count();
                    }
                }
                repeated |= !seen.insert((i, 0));
            }
            3 | 4 => {
                allowed.extend(man_of[i].iter().map(|f| &f[..]));
                failed |= bworld::check_manifest(&s[i], &xs[i]).is_err() || xs[i].manifest.is_none();
                repeated |= !seen.insert((i, 1));
            }
            5 => {
                bworld::check_snap(&s[i], &xs[i])?;
                let set = s[i].as_backup_set();
                let _ = (set.to_string(), set.volume_path(1), set.manifest_path(), set.is_complete());
            }
            6 => {
                let all = b.snapshots().map_err(|e| e.to_string())?;
                let coll = all.as_collections();
                let _ = coll.to_string();
                for sc in coll.signature_chains() {
                    let _ = sc.to_string();
                }
            }
            7 => {
                for s in b.snapshots().map_err(|e| e.to_string())? {
                    let _ = (s.time(), s.is_full(), s.num_volumes());
                }
            }
            _ => {
                let _ = b.snapshots().map_err(|e| e.to_string())?.into_iter().count();
            }
        }
        seq.push_str(&format!("{}:{} ", what, i));
        let log = be.log();
        let new = &log[before..];
        total += 1;
        let mut any = false;
        for e in new {
            match e {
                Ev::List(_) => return Err(format!("step {} listed the directory again", step)),
                Ev::Open(name, _) => {
                    any = true;
                    ensure!(
                        listed.contains(name),
                        "step {} ({}) asked for {}, which the backend did not list",
                        step,
                        seq,
                        esc(name)
                    );
                    ensure!(
                        allowed.iter().any(|a| a.as_bytes() == &name[..]),
                        "step {} (kind {} on snapshot {}) opened {}, allowed were {:?}",
                        step,
                        what,
                        i,
                        esc(name),
                        allowed
                    );
                    let k = opened.entry(name.clone()).or_insert(0);
                    *k += 1;
                    ensure!(
                        failed || *k == 1,
                        "step {} opened {} for the {}th time and nothing had failed ({})",
                        step,
                        esc(name),
                        k,
                        seq
                    );
                }
                Ev::Eof(_) | Ev::ReadErr(_) => (),
            }
        }
        if !any {
            free += 1;
        }
    }
    ensure!(!failed || incomplete, "a query failed on a complete backup ({})", seq);
    drop(ss);
    drop(again);
    let before = be.log_len();
    let inner = b.into_inner();
    ensure!(be.log_len() == before && Arc::ptr_eq(&inner.0, &be.0), "into_inner touched the backend");
    c.count("queries observed", total);
    c.count("files opened", opened.values().map(|n| *n as u64).sum());
    c.count("queries answered without opening anything", free);
    if repeated {
        c.distinct_of(&[seq.as_bytes(), &w.hash().to_le_bytes()]);
    }
    c.sample(|| format!("{} queries ({}), files opened: {}", total, seq.trim(), opened.len()));
    Ok(())
}

fn show(log: &[Ev]) -> Vec<String> {
    log.iter()
        .map(|e| match e {
            Ev::List(ok) => format!("list {}", ok),
            Ev::Open(n, ok) => format!("open {} {}", esc(n), ok),
            Ev::Eof(n) => format!("end of {}", esc(n)),
            Ev::ReadErr(n) => format!("failed read of {}", esc(n)),
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------

/// An iteration in progress over a handle which is never moved. The handle outlives it: handles are
/// boxed, and a handle with iterators is not dropped.
struct Running<'a> {
    handle: usize,
    snap: usize,
    pos: usize,
    iter: ruplicity::signatures::SnapshotEntries<'a>,
}

fn advance(x: &mut Running, want: &[Ent], n: usize) -> R {
    for _ in 0..n {
        let got = x.iter.next().map(|e| model::ent_of(&e));
        let w = want.get(x.pos);
        ensure!(
            got.as_ref() == w,
            "iterating over snapshot {} with other handles around: entry {} is {} instead of {}",
            x.snap,
            x.pos,
            got.as_ref().map_or("absent".into(), |e| e.show()),
            w.map_or("the end".into(), |e| e.show())
        );
        if got.is_none() {
            break;
        }
        x.pos += 1;
    }
    Ok(())
}

/// More handles at the same time than sixteen bits can count.
fn p15_vast(c: &mut Ctx) -> R {
    let mut cfg = WCfg::tame();
    cfg.chains = 1;
    cfg.snaps = 3;
    let w = bworld::build(&mut c.rng, &cfg);
    let xs = w.expected();
    if xs.is_empty() {
        return Ok(());
    }
    c.note(|| w.describe());
    let b = bworld::open(bworld::mem(&w))?;
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == xs.len(), "{} snapshots, expected {}", ss.len(), xs.len());
    let mut ents = Vec::new();
    let mut mans = Vec::new();
    let n = 65_600 + c.rng.usize(300);
    for i in 0..n {
        let k = c.rng.usize(ss.len());
        ents.push((k, ss[k].entries().map_err(|e| format!("listing {} at the same time: {}", i, e))?));
        mans.push((k, ss[k].manifest().map_err(|e| format!("manifest {} at the same time: {:?}", i, e))?));
    }
    for _ in 0..40 {
        let (k, ref e) = ents[c.rng.usize(n)];
        let got = model::listing(e.as_signature(), model::CAP)?;
        if let Some(ref want) = xs[k].entries {
            model::diff(&got, want, true)?;
        }
        let (k, ref m) = mans[c.rng.usize(n)];
        if let Some(ref want) = w.mans.get(&xs[k].set.id) {
            manif::compare(m, want)?;
        }
    }
    c.max("handles held at the same time", 2 * n as u64);
    Ok(())
}

fn p15(c: &mut Ctx) -> R {
    if c.idx % 60_000 == 4 {
        return p15_vast(c);
    }
    let r = &mut c.rng;
    let mut cfg = WCfg::tame();
    cfg.chains = 3;
    cfg.snaps = 3;
    cfg.fs.ops = 4;
    let many = r.chance(1, 24);
    if many {
        // many snapshots
        cfg.chains = 12;
        cfg.snaps = 24;
        cfg.fs.ops = 2;
    }
    let mut w = bworld::build(r, &cfg);
    // requests that fail: missing, encrypted and malformed files
    let bad = r.bool();
    if bad {
        let mut kept = Vec::new();
        for f in w.names.clone() {
            if f.part == Part::Man && r.chance(1, 6) {
                w.files.insert(f.text.clone().into_bytes(), Arc::new(b"Hostname x\nnot a manifest".to_vec()));
                w.mans.remove(&f.id);
            } else if r.chance(1, 8) {
                w.files.remove(f.text.as_bytes());
                if f.part == Part::Sig && r.bool() {
                    let g = names::make(f.id, f.part, false, ".gpg", Case::Upper, r);
                    w.files.insert(g.text.clone().into_bytes(), Arc::new(vec![0x85; 100]));
                    kept.push(g);
                }
                continue;
            }
            kept.push(f);
        }
        w.names = kept;
    }
    let flaky = r.chance(1, 3);
    let xs = w.expected();
    if xs.is_empty() {
        return Ok(());
    }
    c.note(|| w.describe());
    let be = bworld::mem(&w);
    let b = bworld::open(be.clone())?;
    let seed = c.rng.next();
    be.with(|s| {
        s.rng = Rng::new(seed);
        if flaky {
            s.fault_one_in = 6;
        }
    });
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == xs.len(), "{} snapshots, expected {}", ss.len(), xs.len());
    // raw pointers from Box::into_raw, so that iterations can be kept beside their handles
    let mut ents: Vec<Option<(usize, *mut SnapshotEntries)>> = Vec::new();
    let mut mans: Vec<Option<(usize, ManifestRef)>> = Vec::new();
    let mut runs: Vec<Running> = Vec::new();
    let empty: Vec<Ent> = Vec::new();
    let (mut nested, mut rechecked, mut failing, mut steps_it) = (0u64, 0u64, 0u64, 0u64);
    let mut seq: Vec<u8> = Vec::new();
    let n = 20 + c.rng.usize(60);
    let n = if many { n * 6 } else { n.max(2 * ss.len()).min(800) };
    let mut res = Ok(());
    for step in 0..n {
        let alive = ents.iter().filter(|x| x.is_some()).count() + mans.iter().filter(|x| x.is_some()).count();
        let op = c.rng.below(12);
        let i = c.rng.usize(ss.len());
        seq.extend_from_slice(&[op as u8, i as u8]);
        let one = (|| -> R {
            match op {
                0 | 1 | 2 => {
                    let errs = be.with(|s| s.errors.len());
                    let got = ss[i].entries();
                    let injected = be.with(|s| s.errors.len()) > errs;
                    if alive > 0 {
                        nested += 1;
                    }
                    match got {
                        Ok(e) => {
                            ensure!(xs[i].entries.is_some(), "entries given for snapshot {}, whose files are missing", i);
                            ents.push(Some((i, Box::into_raw(Box::new(e)))));
                        }
                        Err(e) => {
                            ensure!(
                                xs[i].entries.is_none() || injected,
                                "entries of snapshot {} refused with {} handles alive: {}",
                                i,
                                alive,
                                e
                            );
                            if alive > 0 {
                                failing += 1;
                            }
                        }
                    }
                }
                3 | 4 | 5 => {
                    let errs = be.with(|s| s.errors.len());
                    let got = ss[i].manifest();
                    let injected = be.with(|s| s.errors.len()) > errs;
                    if alive > 0 {
                        nested += 1;
                    }
                    match got {
                        Ok(m) => {
                            ensure!(xs[i].manifest.is_some(), "manifest given for snapshot {}, whose file is missing", i);
                            mans.push(Some((i, m)));
                        }
                        Err(e) => {
                            ensure!(
                                xs[i].manifest.is_none() || injected,
                                "manifest of snapshot {} refused with {} handles alive: {}",
                                i,
                                alive,
                                e
                            );
                            if alive > 0 {
                                failing += 1;
                            }
                        }
                    }
                }
                6 if !ents.is_empty() => {
                    // start, or clone, an iteration
                    let k = c.rng.usize(ents.len());
                    if let Some((snap, p)) = ents[k] {
                        let e: &SnapshotEntries = unsafe { &*p };
                        runs.push(Running {
                            handle: k,
                            snap,
                            pos: 0,
                            iter: e.as_signature(),
                        });
                    }
                    if c.rng.bool() && !runs.is_empty() {
                        let k = c.rng.usize(runs.len());
                        let x = &runs[k];
                        let y = Running {
                            handle: x.handle,
                            snap: x.snap,
                            pos: x.pos,
                            iter: x.iter.clone(),
                        };
                        runs.push(y);
                    }
                }
                7 | 8 if !runs.is_empty() => {
                    let k = c.rng.usize(runs.len());
                    let m = 1 + c.rng.usize(6);
                    let want = xs[runs[k].snap].entries.as_ref().unwrap_or(&empty);
                    steps_it += 1;
                    advance(&mut runs[k], want, m)?;
                }
                9 => {
                    // drop something
                    match c.rng.below(3) {
                        0 if !runs.is_empty() => {
                            let k = c.rng.usize(runs.len());
                            runs.swap_remove(k);
                        }
                        1 if !mans.is_empty() => {
                            let k = c.rng.usize(mans.len());
                            mans[k] = None;
                        }
                        _ if !ents.is_empty() => {
                            let k = c.rng.usize(ents.len());
                            if !runs.iter().any(|x| x.handle == k) {
                                if let Some((_, p)) = ents[k].take() {
                                    drop(unsafe { Box::from_raw(p) });
                                }
                            }
                        }
                        _ => (),
                    }
                }
                _ => {
                    // check a few handles again
                    for _ in 0..3 {
                        if !ents.is_empty() {
                            let k = c.rng.usize(ents.len());
                            if let Some((snap, p)) = ents[k] {
                                let e: &SnapshotEntries = unsafe { &*p };
                                let got = model::listing(e.as_signature(), model::CAP)?;
                                model::diff(&got, xs[snap].entries.as_ref().unwrap_or(&empty), true)
                                    .map_err(|e| format!("a handle on snapshot {} changed: {}", snap, e))?;
                                rechecked += 1;
                            }
                        }
                        if !mans.is_empty() {
                            let k = c.rng.usize(mans.len());
                            if let Some((snap, ref m)) = mans[k] {
                                if let Some(ref want) = xs[snap].manifest {
                                    manif::compare(m, want)
                                        .map_err(|e| format!("a manifest of snapshot {} changed: {}", snap, e))?;
                                }
                                rechecked += 1;
                            }
                        }
                    }
                }
            }
            Ok(())
        })();
        if let Err(e) = one {
            res = Err(format!("step {}: {}", step, e));
            break;
        }
    }
    // everything still alive is still right
    if res.is_ok() {
        for x in &mut runs {
            let want = xs[x.snap].entries.as_ref().unwrap_or(&empty);
            if let Err(e) = advance(x, want, want.len() + 1) {
                res = Err(format!("at the end: {}", e));
                break;
            }
        }
    }
    runs.clear();
    for (snap, p) in ents.drain(..).flatten() {
        let e = unsafe { Box::from_raw(p) };
        if res.is_ok() {
            let r = model::listing(e.as_signature(), model::CAP)
                .and_then(|got| model::diff(&got, xs[snap].entries.as_ref().unwrap_or(&empty), true));
            if let Err(m) = r {
                res = Err(format!("at the end, a handle on snapshot {} changed: {}", snap, m));
            }
            rechecked += 1;
        }
    }
    res?;
    drop(mans);
    drop(ss);
    be.with(|s| s.fault_one_in = 0);
    // and the backup as a whole, with no handle left
    let ss = bworld::snaps(&b)?;
    for (i, s) in ss.iter().enumerate() {
        bworld::check_entries(s, &xs[i], true).map_err(|e| format!("with no handle left, snapshot {}: {}", i, e))?;
        bworld::check_manifest(s, &xs[i]).map_err(|e| format!("with no handle left, snapshot {}: {}", i, e))?;
    }
    c.count("requests with other handles alive", nested);
    c.count("handles re-checked", rechecked);
    c.count("failing requests with handles alive", failing);
    c.count("iterators advanced while other handles come and go", steps_it);
    if nested > 0 {
        c.distinct_of(&[&seq, &w.hash().to_le_bytes()]);
    }
    c.sample(|| format!("{} steps, {} requests with other handles alive, {} failing", n, nested, failing));
    Ok(())
}
