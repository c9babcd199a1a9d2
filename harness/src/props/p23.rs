//! P23: separate backups do not influence each other.

use crate::be::{self, Chunk, Mem};
use crate::bworld::{self, BWorld, WCfg, XSnap};
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::manif::{self, Style};

use crate::names::{self, Case, Id, Part};
use crate::sup::{self, Prop};
use crate::util::{self, Fnv, Rng};
use crate::world;
use ruplicity::backend::local::LocalBackend;
use ruplicity::timefmt::TimeDisplay;
use ruplicity::{Backend, Backup};
use std::fmt::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P23",
        f: p23,
        quick: 1500,
        thorough: 30000,
        level: "exploration",
        rule: "a case is 2-5 backups, some over the same backend, some over backends with the same file names and other contents, some over failing or damaged ones, some over local directories, queried at the same time by 2-8 threads (each with its own backups, some moved between threads after being partly loaded) or interleaved in one thread; every result is compared with what the model says of that backup alone; distinct by the order in which the threads reached the backends (or the sequence of interleaved queries), non-trivial if at least two backups alternate",
        need: &[
            ("queries compared", 80_000),
            ("queries by concurrent threads", 40_000),
            ("switches between threads at the backends", 5_000),
            ("texts compared", 10_000),
            ("backups over a shared backend", 1_500),
            ("backups with the names of another one", 600),
            ("backups with the sets of another one under other names", 300),
            ("queries failed by injected faults", 1_000),
            ("backups moved to another thread", 500),
            ("interleaved queries in one thread", 15_000),
        ],
        assumptions: &["the schedules are those of the operating system, diversified by yields and delays at every backend operation"],
    }]
}

/// A world with the same names as another one, but other contents.
pub(super) fn twin(w: &BWorld, r: &mut Rng, cfg: &WCfg) -> BWorld {
    let mut t = w.clone();
    let m = names::model(&w.names);
    for ch in &m.chains {
        let ids: Vec<Id> = ch.sets.iter().map(|s| s.id).collect();
        let h = world::history(r, ids.len(), ids[0].1, &cfg.fs);
        for (i, id) in ids.iter().enumerate() {
            let paths: Vec<Vec<u8>> = h.expect[i].iter().map(|e| e.path.clone()).collect();
            let mut man = manif::random_man(r, 0);
            man.vols = manif::volumes_over(&paths, r);
            for v in &mut man.vols {
                if v.start.is_empty() {
                    v.start = b".".to_vec();
                }
                if v.end.is_empty() {
                    v.end = b".".to_vec();
                }
            }
            if let Some(ref f) = ch.sets[i].sig {
                let comp = f.comp;
                let d = bworld::encode(&h.recs[i], comp, cfg.plain_enc, r);
                t.files.insert(f.text.clone().into_bytes(), Arc::new(d));
            }
            if let Some(ref f) = ch.sets[i].man {
                let st = Style::random(r);
                t.files
                    .insert(f.text.clone().into_bytes(), Arc::new(manif::write(&man, &st, r)));
            }
            t.recs.insert(*id, h.recs[i].clone());
            t.mans.insert(*id, man);
        }
    }
    t
}

/// A world with the sets and contents of another one, whose files have other names.
fn renamed(w: &BWorld, r: &mut Rng, cfg: &WCfg) -> BWorld {
    let mut t = BWorld {
        names: Vec::new(),
        files: Default::default(),
        recs: w.recs.clone(),
        mans: w.mans.clone(),
    };
    // some files as they were, the others named and encoded anew
    for f in &w.names {
        if r.chance(1, 3) {
            if let Some(d) = w.files.get(f.text.as_bytes()) {
                t.files.insert(f.text.clone().into_bytes(), d.clone());
            }
            t.names.push(f.clone());
            continue;
        }
        let case = if r.bool() { Case::Upper } else { Case::Lower };
        let partial = f.part == Part::Sig && r.chance(1, 3);
        match f.part {
            Part::Sig => {
                let comp = r.bool();
                let sfx = if !comp {
                    ""
                } else if r.bool() {
                    ".gz"
                } else {
                    ".z"
                };
                let n = names::make(f.id, f.part, partial, sfx, case, r);
                if let Some(rs) = w.recs.get(&f.id) {
                    let d = bworld::encode(rs, comp, cfg.plain_enc, r);
                    t.files.insert(n.text.clone().into_bytes(), Arc::new(d));
                }
                t.names.push(n);
            }
            Part::Man => {
                let n = names::make(f.id, f.part, r.chance(1, 3), "", case, r);
                if let Some(m) = w.mans.get(&f.id) {
                    let st = Style::random(r);
                    t.files
                        .insert(n.text.clone().into_bytes(), Arc::new(manif::write(m, &st, r)));
                }
                t.names.push(n);
            }
            Part::Vol(_) => {
                let sfx = *r.pick(&["", ".gz", ".z", ".gpg"]);
                let n = names::make(f.id, f.part, false, sfx, case, r);
                if n.text != f.text && r.chance(1, 6) {
                    // a volume less
                    continue;
                }
                t.files.insert(n.text.clone().into_bytes(), Arc::new(b"volume".to_vec()));
                t.names.push(n);
            }
        }
    }
    t
}

/// One backup to query and what it must say.
struct Sub {
    be: Mem,
    dir: Option<PathBuf>,
    xs: Vec<XSnap>,
    texts: Vec<Option<String>>,
    flaky: bool,
}

fn text_of<B: Backend>(b: &Backup<B>, i: usize) -> Result<Option<String>, String> {
    let mut s = String::new();
    if let Some(sn) = b.snapshots().map_err(|e| e.to_string())?.into_iter().nth(i) {
        match sn.entries() {
            Ok(e) => {
                let _ = write!(s, "{}", e);
            }
            Err(_) => return Ok(None),
        }
        let _ = write!(s, "{} {}", sn.time().into_local_display(), sn.as_backup_set());
        match sn.manifest() {
            Ok(m) => {
                let _ = write!(s, "{:?}", *m);
            }
            Err(_) => return Ok(None),
        }
    }
    Ok(Some(s))
}

#[derive(Default)]
struct Tally {
    queries: u64,
    texts: u64,
    given_up: u64,
    failed: u64,
}

/// A query and the comparison of its result.
fn query<B: Backend>(b: &Backup<B>, s: &Sub, r: &mut Rng, t: &mut Tally) -> R {
    let n = s.xs.len();
    t.queries += 1;
    let what = r.below(10);
    if what == 0 || n == 0 {
        // the shape of the backup
        let ss = bworld::snaps(b)?;
        ensure!(ss.len() == n, "{} snapshots instead of {}", ss.len(), n);
        for (sn, x) in ss.iter().zip(&s.xs) {
            bworld::check_snap(sn, x)?;
        }
        return Ok(());
    }
    let i = r.usize(n);
    let sn = match b.snapshots().map_err(|e| e.to_string())?.into_iter().nth(i) {
        Some(x) => x,
        None => return Err(format!("no snapshot {} of {}", i, n)),
    };
    let x = &s.xs[i];
    if what < 5 {
        if s.flaky {
            if sn.entries().is_err() {
                t.failed += 1;
                return Ok(());
            }
        }
        bworld::check_entries(&sn, x, true).map_err(|e| format!("entries of snapshot {}: {}", i, e))?;
    } else if what < 8 {
        if s.flaky {
            if sn.manifest().is_err() {
                t.failed += 1;
                return Ok(());
            }
        }
        bworld::check_manifest(&sn, x).map_err(|e| format!("manifest of snapshot {}: {}", i, e))?;
    } else {
        if r.bool() {
            // a display that is given up half way
            if let (Ok(e), Some(ref x)) = (sn.entries(), &s.texts[i]) {
                let mut w = util::Short::new(r.usize(x.len().min(400) + 1));
                let _ = write!(w, "{}", e);
                t.given_up += 1;
            }
        }
        let got = text_of(b, i)?;
        if got.is_none() && s.flaky {
            t.failed += 1;
            return Ok(());
        }
        t.texts += 1;
        ensure!(
            got == s.texts[i],
            "the text of snapshot {} differs from the one reported alone: {:?} and {:?}",
            i,
            got,
            s.texts[i]
        );
    }
    Ok(())
}

enum Any {
    M(Backup<Mem>),
    L(Backup<LocalBackend>),
}
impl Any {
    fn open(s: &Sub, local: bool) -> Result<Option<Any>, String> {
        match (local, &s.dir) {
            (true, Some(d)) => match Backup::new(LocalBackend::new(d)) {
                Ok(b) => Ok(Some(Any::L(b))),
                Err(e) => Err(format!("open: {}", e)),
            },
            _ => match Backup::new(s.be.clone()) {
                Ok(b) => Ok(Some(Any::M(b))),
                Err(_) if s.flaky => Ok(None),
                Err(e) => Err(format!("open: {}", e)),
            },
        }
    }
    fn query(&self, s: &Sub, r: &mut Rng, t: &mut Tally) -> R {
        match self {
            Any::M(b) => query(b, s, r, t),
            Any::L(b) => query(b, s, r, t),
        }
    }
}

/// Whether a backup may change thread. The property does not ask for it, so a library that gives it
/// up still builds with this harness, and its backups stay where they are.
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
trait NotSend {
    const SEND: bool = false;
}
impl<T> NotSend for Probe<T> {}
const MOVES: bool = Probe::<Any>::SEND;

struct Parcel((usize, Any));
// sent to another thread only if MOVES
unsafe impl Send for Parcel {}

fn p23(c: &mut Ctx) -> R {
    let cfg = WCfg {
        chains: 2,
        snaps: 3,
        ..if c.rng.bool() { WCfg::tame() } else { WCfg::normal() }
    };
    // the worlds
    let mut ws: Vec<(BWorld, bool, bool)> = Vec::new();
    let base = bworld::build(&mut c.rng, &cfg);
    let n = 2 + c.rng.usize(3);
    ws.push((base, false, false));
    while ws.len() < n {
        let w = match c.rng.below(4) {
            0 => bworld::build(&mut c.rng, &cfg),
            1 => {
                // the same backup, of a backend of its own that fails now and then
                let w = ws[c.rng.usize(ws.len())].0.clone();
                ws.push((w, true, false));
                continue;
            }
            _ => {
                let k = c.rng.usize(ws.len());
                let w = ws[k].0.clone();
                if c.rng.chance(1, 3) {
                    c.count("backups with the sets of another one under other names", 1);
                    renamed(&w, &mut c.rng, &cfg)
                } else {
                    c.count("backups with the names of another one", 1);
                    twin(&w, &mut c.rng, &cfg)
                }
            }
        };
        let local = c.rng.chance(1, 10);
        ws.push((w, false, local));
    }
    let root = std::env::temp_dir().join(format!("rv-p23-{}-{}", std::process::id(), c.idx));
    let mut subs: Vec<Sub> = Vec::new();
    let mut h = Fnv::new();
    for (i, (w, flaky, local)) in ws.iter().enumerate() {
        h.num(w.hash());
        c.note(|| format!("backup {} flaky {} local {}\n{}", i, flaky, local, w.describe()));
        let be = bworld::mem(w);
        let xs = w.expected();
        // what it says alone
        let texts = {
            let b = bworld::open(bworld::mem(w))?;
            let mut v = Vec::new();
            for k in 0..xs.len() {
                v.push(text_of(&b, k)?);
            }
            v
        };
        let dir = if *local {
            let d = root.join(i.to_string());
            let ok = std::fs::create_dir_all(&d).is_ok()
                && w.files
                    .iter()
                    .all(|(n, b)| std::fs::write(d.join(String::from_utf8_lossy(n).as_ref()), &b[..]).is_ok());
            if !ok {
                crate::hbug!("cannot write {}", d.display());
            }
            Some(d)
        } else {
            None
        };
        let seed = c.rng.next();
        let chunk = match c.rng.below(3) {
            0 => Chunk::Full,
            1 => Chunk::Fixed(512),
            _ => Chunk::Random(3000),
        };
        let flaky = *flaky;
        be.with(|s| {
            s.rng = Rng::new(seed);
            s.chunk = chunk;
            s.yields = true;
            s.interrupt = 40;
            s.fault_one_in = if flaky { 6 } else { 0 };
        });
        subs.push(Sub {
            be,
            dir,
            xs,
            texts,
            flaky,
        });
    }
    c.sample(|| {
        let v: Vec<String> = ws
            .iter()
            .map(|(w, f, l)| format!("{} files, {} sets{}{}", w.files.len(), w.recs.len(), if *f { ", failing" } else { "" }, if *l { ", local" } else { "" }))
            .collect();
        v.join(" | ")
    });
    let res = if c.rng.chance(2, 3) { threads(c, &subs) } else { one_thread(c, &subs, &mut h) };
    if subs.iter().any(|s| s.dir.is_some()) {
        let _ = std::fs::remove_dir_all(&root);
    }
    res
}

fn one_thread(c: &mut Ctx, subs: &[Sub], h: &mut Fnv) -> R {
    let r = &mut c.rng;
    let n = 2 + r.usize(6);
    let which: Vec<usize> = (0..n).map(|_| r.usize(subs.len())).collect();
    let mut open: Vec<Option<Any>> = (0..n).map(|_| None).collect();
    let mut t = Tally::default();
    let mut shared = 0;
    for k in 0..n {
        if which[..k].contains(&which[k]) {
            shared += 1;
        }
    }
    let ops = 20 + r.usize(60);
    let mut res = Ok(());
    for _ in 0..ops {
        let k = r.usize(n);
        let s = &subs[which[k]];
        h.num(k as u64);
        if open[k].is_none() || r.chance(1, 25) {
            open[k] = Any::open(s, r.bool())?;
        }
        if let Some(ref b) = open[k] {
            res = b
                .query(s, r, &mut t)
                .map_err(|e| format!("backup {} (over backend {}), among others in one thread: {}", k, which[k], e));
            if res.is_err() {
                break;
            }
        }
    }
    c.distinct(h.0);
    c.count("interleaved queries in one thread", t.queries);
    c.count("queries compared", t.queries - t.failed);
    c.count("texts compared", t.texts);
    c.count("displays given up half way", t.given_up);
    c.count("queries failed by injected faults", t.failed);
    c.count("backups over a shared backend", shared);
    res
}

fn threads(c: &mut Ctx, subs: &[Sub]) -> R {
    let n = 2 + c.rng.usize(7);
    let rounds = 6 + c.rng.usize(14);
    let seeds: Vec<Rng> = (0..n).map(|_| c.rng.fork()).collect();
    let barrier = Barrier::new(n);
    let stop = AtomicBool::new(false);
    let moved = AtomicU64::new(0);
    let shared = AtomicU64::new(0);
    // half loaded backups that change thread
    let pool: std::sync::Mutex<Vec<Parcel>> = std::sync::Mutex::new(Vec::new());
    be::trace(Some(Vec::new()));
    let results: Vec<(R, Tally)> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .into_iter()
            .enumerate()
            .map(|(k, mut r)| {
                let (barrier, stop, moved, shared, pool) = (&barrier, &stop, &moved, &shared, &pool);
                sc.spawn(move || {
                    be::TAG.with(|t| t.set(k as u8 + 1));
                    let mut t = Tally::default();
                    let mut mine: Option<(usize, Any)> = None;
                    barrier.wait();
                    let res = (|| -> R {
                        for round in 0..rounds {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if mine.is_none() || r.chance(1, 6) {
                                // give away what was in use, take or open another one
                                let old = mine.take();
                                if let Ok(mut p) = pool.lock() {
                                    if let Some(o) = old {
                                        if r.bool() && MOVES {
                                            p.push(Parcel(o));
                                        }
                                    }
                                    if r.bool() && !p.is_empty() {
                                        let i = r.usize(p.len());
                                        mine = Some(p.swap_remove(i).0);
                                        moved.fetch_add(1, Ordering::Relaxed);
                                    }
                                }
                                if mine.is_none() {
                                    let i = r.usize(subs.len());
                                    if round > 0 {
                                        shared.fetch_add(1, Ordering::Relaxed);
                                    }
                                    mine = Any::open(&subs[i], r.bool())?.map(|b| (i, b));
                                }
                            }
                            for _ in 0..1 + r.usize(4) {
                                if let Some((i, ref b)) = mine {
                                    b.query(&subs[i], &mut r, &mut t)
                                        .map_err(|e| format!("a backup over backend {}, thread {} of {}: {}", i, k, n, e))?;
                                }
                                if r.chance(1, 8) {
                                    std::thread::sleep(std::time::Duration::from_micros(r.below(60)));
                                }
                            }
                        }
                        Ok(())
                    })();
                    if res.is_err() {
                        stop.store(true, Ordering::Relaxed);
                    }
                    (res, t)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(x) => x,
                Err(_) => {
                    let (m, at, ours) = sup::last_panic().unwrap_or(("?".into(), "?".into(), true));
                    if ours {
                        crate::hbug!("a thread panicked: {} at {}", m, at);
                    }
                    (Err(format!("a thread panicked: {} at {}", m, at)), Tally::default())
                }
            })
            .collect()
    });
    let trace = be::trace(None).unwrap_or_default();
    let switches = trace.windows(2).filter(|w| w[0] != w[1]).count() as u64;
    let mut f = Fnv::new();
    f.add(&trace);
    c.distinct(f.0);
    c.count("switches between threads at the backends", switches);
    c.count("operations at the backends by threads", trace.len() as u64);
    if !MOVES {
        c.count("cases whose backups cannot change thread", 1);
    }
    c.count("backups moved to another thread", if MOVES { moved.load(Ordering::Relaxed) } else { 1 });
    c.count("backups over a shared backend", shared.load(Ordering::Relaxed));
    c.max("threads", n as u64);
    for (_, t) in &results {
        c.count("queries by concurrent threads", t.queries);
        c.count("queries compared", t.queries - t.failed);
        c.count("texts compared", t.texts);
        c.count("displays given up half way", t.given_up);
        c.count("queries failed by injected faults", t.failed);
    }
    for (r, _) in results {
        r?;
    }
    Ok(())
}
