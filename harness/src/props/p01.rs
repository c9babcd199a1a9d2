//! P01 (replay), P02 (order), P04 (immutability of snapshots).

use crate::bworld::{self, BWorld, WCfg};
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::model::{self, key, Ent};
use crate::names;
use crate::sup::Prop;
use crate::tarw::{Kind, Rec};
use crate::util::{Fnv, Rng};
use crate::world::Cfg;
use ruplicity::collections::Collections;
use ruplicity::signatures::Chain;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            f: p01,
            quick: 4000,
            thorough: 60000,
            level: "exploration",
            rule: "a case is a backup of 1-3 chains built from simulated file-system histories (adversarial names around '/', deletions, re-creations, type and owner changes, noise members; some with shuffled or repeated members, a few with 257-420 snapshots, one with more than 65536 paths and users), encoded at random; distinct by archive bytes, non-trivial if some snapshot after the first changes the listing",
            need: &[("entries compared", 100_000), ("long chains", 10), ("deletions replayed", 5_000), ("snapshots via Chain::from_sigchain", 4_000), ("backups of more than 65536 paths", 1)],
            assumptions: &["the tar and gzip encodings written by the harness are valid (cross-checked by P22)"],
        },
        Prop {
            id: "P02",
            f: p02,
            quick: 4000,
            thorough: 60000,
            level: "exploration",
            rule: "a case is a backup as in P01, biased to sibling names that extend each other with bytes around '/'; distinct by listing, non-trivial if a listing has two siblings, one with contents and the other extending its name",
            need: &[("adjacent pairs checked", 100_000), ("pairs where byte order differs from path order", 1_000)],
            assumptions: &[],
        },
        Prop {
            id: "P04",
            f: p04,
            quick: 2500,
            thorough: 40000,
            level: "exploration",
            rule: "a case is a backup whose chains grow one snapshot at a time: everything reported for each snapshot is recorded when it is the newest and compared after every later addition (a few chains have 60-200 snapshots that record the same paths again and again); distinct by archive bytes, non-trivial if at least two snapshots exist and a later record touches a path listed earlier",
            need: &[("snapshot reports compared", 10_000), ("long chains", 20), ("comparisons after a rename of a user or group", 500)],
            assumptions: &[],
        },
    ]
}

pub fn p01_world(r: &mut Rng, long: bool) -> BWorld {
    let mut cfg = WCfg::normal();
    cfg.manifests = false;
    if long {
        cfg.chains = 1;
        cfg.fs.ops = 2;
        cfg.fs.max_nodes = 12;
        cfg.overlap = false;
        let n = 257 + r.usize(160);
        return build_fixed(r, &cfg, n);
    }
    cfg.snaps = 1 + r.usize(8);
    cfg.wild = true;
    cfg.fs.text = r.chance(1, 4);
    if r.chance(1, 10) {
        cfg.fs.ops = 60;
        cfg.fs.max_nodes = 300;
        cfg.chains = 1;
    }
    bworld::build(r, &cfg)
}

pub fn build_fixed(r: &mut Rng, cfg: &WCfg, n: usize) -> BWorld {
    // exactly n snapshots
    let ts = names::instants(r, n);
    let h = crate::world::history(r, n, ts[0], &cfg.fs);
    let mut w = BWorld {
        names: vec![],
        files: Default::default(),
        recs: Default::default(),
        mans: Default::default(),
    };
    for i in 0..n {
        let id = if i == 0 {
            (false, ts[0], ts[0])
        } else {
            (true, ts[i - 1], ts[i])
        };
        let m = crate::manif::random_man(r, 0);
        w.add_set(id, h.recs[i].clone(), m, cfg, r);
    }
    w
}

/// A backup with more paths and more names of users than sixteen bits can count.
fn vast_world(r: &mut Rng) -> BWorld {
    let mut cfg = WCfg::normal();
    cfg.manifests = false;
    let n = 65_600 + r.usize(500);
    let rec = |i: usize, t: i64| Rec {
        kind: Kind::Snap,
        path: format!("{:03}/{:05}", i / 900, i).into_bytes(),
        typ: b'0',
        mtime: t,
        uid: i as u64,
        gid: 7,
        uname: format!("u{}", i).into_bytes(),
        gname: format!("g{}", i % 5).into_bytes(),
        mode: 0o644,
        link: vec![],
        body: vec![],
    };
    let mut w = BWorld {
        names: vec![],
        files: Default::default(),
        recs: Default::default(),
        mans: Default::default(),
    };
    let ts = names::instants(r, 2);
    let full: Vec<Rec> = (0..n).map(|i| rec(i, 1_000_000 + i as i64)).collect();
    let mut inc = Vec::new();
    for i in 0..n {
        if r.chance(1, 90) || i % 65_536 < 2 {
            let mut x = rec(i, 2_000_000);
            if r.bool() {
                x.kind = Kind::Del;
            } else {
                x.uname = format!("u{}", r.usize(n)).into_bytes();
            }
            inc.push(x);
        }
    }
    for (id, recs) in [((false, ts[0], ts[0]), full), ((true, ts[0], ts[1]), inc)] {
        let m = crate::manif::random_man(r, 0);
        w.add_set(id, recs, m, &cfg, r);
    }
    w
}

fn p01(c: &mut Ctx) -> R {
    let long = c.idx % 101 == 7;
    let w = if c.idx % 60_000 == 4 {
        c.count("backups of more than 65536 paths", 1);
        vast_world(&mut c.rng)
    } else {
        p01_world(&mut c.rng, long)
    };
    c.note(|| w.describe());
    let xs = w.expected();
    let be = bworld::mem(&w);
    let b = bworld::open(be.clone())?;
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == xs.len(), "{} snapshots, expected {}", ss.len(), xs.len());
    let mut total = 0u64;
    let mut changed = false;
    for (i, (s, x)) in ss.iter().zip(&xs).enumerate() {
        bworld::check_snap(s, x).map_err(|e| format!("snapshot {}: {}", i, e))?;
        total += bworld::check_entries(s, x, false).map_err(|e| format!("snapshot {}: {}", i, e))? as u64;
        if i > 0 && x.set.inc() && x.entries != xs[i - 1].entries {
            changed = true;
        }
    }
    c.count("entries compared", total);
    c.count("snapshots via Backup", ss.len() as u64);
    if long {
        c.count("long chains", 1);
        c.max("snapshots in a chain", ss.len() as u64);
    }
    let dels = w
        .recs
        .values()
        .flat_map(|v| v.iter())
        .filter(|r| r.kind == Kind::Del)
        .count();
    c.count("deletions replayed", dels as u64);
    c.count(
        "noise members ignored",
        w.recs.values().flat_map(|v| v.iter()).filter(|r| r.kind == Kind::Noise).count() as u64,
    );
    // the low level route
    let texts: Vec<&str> = w.names.iter().map(|n| &n.text[..]).collect();
    let coll = Collections::from_filenames(&texts);
    let mut low = 0u64;
    for sc in coll.signature_chains() {
        let start = sc.start_time().sec;
        let first = match xs.iter().position(|x| !x.set.inc() && x.set.end() == start) {
            Some(p) => p,
            None => return Err(format!("a signature chain starts at {}", start)),
        };
        let n = xs.iter().filter(|x| x.chain == xs[first].chain).count();
        let ch = Chain::from_sigchain(sc, &be).map_err(|e| format!("from_sigchain: {}", e))?;
        ensure!(
            ch.snapshots().count() == n,
            "signature chain with {} snapshots, expected {}",
            ch.snapshots().count(),
            n
        );
        for (i, s) in ch.snapshots().enumerate() {
            let got = model::listing(s.files(), model::CAP)?;
            match xs[first + i].entries {
                Some(ref want) => {
                    model::diff(&got, want, false).map_err(|e| format!("from_sigchain, snapshot {}: {}", i, e))?
                }
                None => crate::hbug!("no expectation"),
            }
            low += 1;
        }
    }
    c.count("snapshots via Chain::from_sigchain", low);
    if changed {
        c.distinct(w.hash());
    }
    let n = xs.len();
    c.sample(|| {
        format!(
            "{} snapshots in {} files; last listing: {}",
            n,
            w.files.len(),
            show(xs.last().and_then(|x| x.entries.as_ref()))
        )
    });
    Ok(())
}

fn show(e: Option<&Vec<Ent>>) -> String {
    match e {
        None => "none".into(),
        Some(v) => v.iter().take(6).map(|e| e.show()).collect::<Vec<_>>().join(" "),
    }
}

fn p02(c: &mut Ctx) -> R {
    let mut cfg = WCfg::normal();
    cfg.manifests = false;
    cfg.wild = true;
    cfg.chains = 1;
    cfg.snaps = 5;
    cfg.fs = Cfg {
        ops: 25,
        max_nodes: 80,
        ..Cfg::normal()
    };
    let w = bworld::build(&mut c.rng, &cfg);
    c.note(|| w.describe());
    let b = bworld::open(bworld::mem(&w))?;
    let mut hash = Fnv::new();
    let mut interesting = false;
    let mut pairs = 0u64;
    let mut inv = 0u64;
    for (i, s) in bworld::snaps(&b)?.iter().enumerate() {
        let l = bworld::entries_of(s)?;
        let mut seen = BTreeSet::new();
        for e in &l {
            ensure!(
                seen.insert(e.path.clone()),
                "snapshot {}: path {} is listed twice",
                i,
                crate::util::esc(&e.path)
            );
            hash.add(&e.path);
        }
        for p in l.windows(2) {
            pairs += 1;
            ensure!(
                key(&p[0].path) < key(&p[1].path),
                "snapshot {}: {} is listed before {}",
                i,
                crate::util::esc(&p[0].path),
                crate::util::esc(&p[1].path)
            );
        }
        // pairs that tell path order from byte order
        for (k, e) in l.iter().enumerate() {
            for f in l.iter().skip(k + 1).take(12) {
                if e.path > f.path {
                    inv += 1;
                    interesting = true;
                }
            }
        }
    }
    c.count("adjacent pairs checked", pairs);
    c.count("pairs where byte order differs from path order", inv);
    if interesting {
        c.distinct(hash.0);
    }
    Ok(())
}

/// Everything the library tells about a snapshot.
fn report(b: &ruplicity::Backup<crate::be::Mem>, end: i64) -> Result<String, String> {
    for s in bworld::snaps(b)? {
        if s.time().sec != end {
            continue;
        }
        let l = bworld::entries_of(&s)?;
        let mut t = format!("full={} vols={}\n", s.is_full(), s.num_volumes());
        for e in &l {
            t.push_str(&e.show());
            t.push('\n');
        }
        let en = s.entries().map_err(|e| format!("entries: {}", e))?;
        t.push_str(&format!("{}", en));
        return Ok(t);
    }
    Err(format!("the snapshot of time {} is gone", end))
}

fn p04(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let mut cfg = WCfg::normal();
    cfg.manifests = false;
    cfg.wild = r.chance(1, 4);
    cfg.snaps = 5;
    cfg.chains = 2;
    cfg.fs.ops = 10;
    cfg.fs.text = true;
    // a few chains are long, and record the same few paths again and again
    let long = c.idx % 61 == 13;
    let full = if long {
        cfg.wild = false;
        cfg.overlap = false;
        cfg.fs.ops = 2;
        cfg.fs.max_nodes = 4;
        let n = 60 + r.usize(140);
        build_fixed(r, &cfg, n)
    } else {
        bworld::build(r, &cfg)
    };
    let mut order: Vec<names::Id> = full.recs.keys().cloned().collect();
    order.sort_by_key(|i| i.2);
    let mut most = 0;
    if long {
        let mut times: std::collections::BTreeMap<&[u8], u64> = Default::default();
        for rec in full.recs.values().flatten() {
            *times.entry(&rec.path[..]).or_insert(0) += 1;
        }
        most = times.values().cloned().max().unwrap_or(0);
    }
    // grow the backup one set at a time
    let mut cur = BWorld {
        names: vec![],
        files: Default::default(),
        recs: Default::default(),
        mans: Default::default(),
    };
    let mut seen: Vec<(i64, String)> = Vec::new();
    let mut renamed = false;
    let mut owners: std::collections::BTreeMap<(bool, u64), Vec<u8>> = Default::default();
    let mut cmp = 0u64;
    let mut cmp_ren = 0u64;
    let mut touched = false;
    for (step, id) in order.iter().enumerate() {
        for n in full.names.iter().filter(|n| n.id == *id) {
            cur.files
                .insert(n.text.clone().into_bytes(), full.files[n.text.as_bytes()].clone());
        }
        for rec in &full.recs[id] {
            if rec.kind == Kind::Del || rec.kind == Kind::Noise {
                touched |= id.0 && rec.kind == Kind::Del;
                continue;
            }
            for (u, i, n) in [(true, rec.uid, &rec.uname), (false, rec.gid, &rec.gname)] {
                if let Some(old) = owners.insert((u, i), n.clone()) {
                    if old != *n {
                        renamed = true;
                    }
                }
            }
        }
        let b = bworld::open(crate::be::Mem::new(&cur.files))?;
        // earlier snapshots first or last: the order of the queries must not matter either
        let newest_first = id.2 % 2 == 0;
        let newest = if newest_first { Some(report(&b, id.2)?) } else { None };
        let all = !long || step + 1 == order.len() || step % 31 == 30;
        for (end, old) in seen.iter().filter(|_| all) {
            let now = report(&b, *end)?;
            cmp += 1;
            if renamed {
                cmp_ren += 1;
            }
            if now != *old {
                let d = now
                    .lines()
                    .zip(old.lines())
                    .find(|(a, b)| a != b)
                    .map(|(a, b)| format!("now {:?}, before {:?}", a, b))
                    .unwrap_or_else(|| "different number of lines".into());
                return Err(format!(
                    "the report of snapshot {} changed when snapshot {} was added: {}",
                    end, id.2, d
                ));
            }
        }
        let newest = match newest {
            Some(n) => n,
            None => report(&b, id.2)?,
        };
        seen.push((id.2, newest));
    }
    c.count("snapshot reports compared", cmp);
    c.count("long chains", u64::from(long));
    c.max("records of one path in a chain", most);
    c.count("comparisons after a rename of a user or group", cmp_ren);
    if order.len() > 1 && touched {
        c.distinct(full.hash());
    }
    c.note(|| full.describe());
    c.sample(|| format!("{} snapshots added one at a time, {} earlier reports re-checked", order.len(), cmp));
    Ok(())
}
