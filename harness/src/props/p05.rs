//! P05 (pairing), P06 (chains), P07 (listing order), P08 (files and flags of a set).

use crate::be::Mem;
use crate::bworld::{self, WCfg};
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::hooks::Meter;
use crate::manif;
use crate::model::{self, Replay};
use crate::tarw;
use crate::world;
use crate::names::{self, Case, FName, Part};
use crate::sup::Prop;
use crate::util::{esc, Fnv, Rng};
use ruplicity::collections::{BackupSet, Collections};
use ruplicity::signatures::Chain;
use ruplicity::Backend;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P05",
            f: p05,
            quick: 4000,
            thorough: 80000,
            level: "exploration",
            rule: "a case is a backup of 1-4 chains (possibly interleaved in time) from which files were removed at random and whose signatures or manifests were replaced at random by encrypted ones; every snapshot is asked for entries and manifest, in random order and twice; distinct by set of names, non-trivial if something is missing and something is left",
            need: &[("requests that must fail", 5_000), ("requests that must succeed", 5_000), ("entries compared", 20_000), ("snapshots of forks and side by side chains", 2_000)],
            assumptions: &["the chain model of P06", "encrypted files are recognised by name"],
        },
        Prop {
            id: "P06",
            f: p06,
            quick: 12000,
            thorough: 280000,
            level: "exploration",
            rule: "a case is a random set of duplicity file names: full sets, continued chains, forks, replaced incrementals, orphans, absent parts, in random listing order (one history has 2600 sets); distinct by set of names, non-trivial if there is an incremental",
            need: &[("sets compared", 30_000), ("orphan sets left out", 2_000), ("incrementals replaced", 1_000), ("signature chains compared", 5_000)],
            assumptions: &["end times are distinct; no incremental of zero length"],
        },
        Prop {
            id: "P07",
            f: p07,
            quick: 6000,
            thorough: 100000,
            level: "exploration",
            rule: "a case is a set of names (duplicity's, including several for the same purpose and equal times, and near-misses) listed in several orders, with and without foreign names, with repetitions; distinct by set of names, non-trivial if there are at least two chains or two files for the same purpose",
            need: &[("permutations compared", 20_000), ("foreign names", 30_000), ("names that are not UTF-8", 100)],
            assumptions: &[],
        },
        Prop {
            id: "P08",
            f: p08,
            quick: 8000,
            thorough: 200000,
            level: "exploration",
            rule: "a case is a set of names with random suffixes, partial files, holes and volume numbers up to 2^64-1 (one set has more than 65536 volumes); every accessor of every set is compared and the heap is metered; distinct by names, non-trivial if a set has a hole, a huge number or mixed suffixes",
            need: &[("sets compared", 20_000), ("huge volume numbers", 2_000), ("volume probes", 100_000), ("partial sets", 500), ("snapshots compared with their sets", 5_000), ("manifests read in between", 500)],
            assumptions: &[],
        },
    ]
}

/// Hundreds of small chains, or a few very long ones.
fn many(r: &mut Rng, cfg: &WCfg) -> bworld::BWorld {
    let mut w = bworld::BWorld {
        names: Vec::new(),
        files: bworld::Files::new(),
        recs: Default::default(),
        mans: Default::default(),
    };
    let n = 260 + r.usize(80);
    let one_chain_in = *r.pick(&[1u64, 2, 100]);
    let ts = names::instants(r, n);
    let mut last: Option<i64> = None;
    for t in ts {
        let id = match last {
            Some(l) if r.below(one_chain_in) != 0 => (true, l, t),
            _ => (false, t, t),
        };
        last = Some(t);
        // every snapshot can be told from the others by what it lists
        let h = world::history(r, 1, t, &cfg.fs);
        let mut recs: Vec<tarw::Rec> = h.recs[0].iter().take(1).cloned().collect();
        for x in &mut recs {
            x.mtime = t;
        }
        let mut man = manif::random_man(r, 1);
        man.vols.truncate(1);
        w.add_set(id, recs, man, cfg, r);
    }
    w
}

/// Forks, orphans, replaced incrementals and sets that end together, each with its own records.
fn forest(r: &mut Rng, cfg: &WCfg) -> bworld::BWorld {
    let mut w = bworld::BWorld {
        names: Vec::new(),
        files: bworld::Files::new(),
        recs: Default::default(),
        mans: Default::default(),
    };
    let ids = if r.bool() {
        names::twin_ids(r)
    } else {
        let n = 3 + r.usize(8);
        names::random_ids(r, n)
    };
    for (i, id) in ids.into_iter().enumerate() {
        if w.recs.contains_key(&id) {
            continue;
        }
        let h = world::history(r, 1, id.2, &cfg.fs);
        let mut recs: Vec<tarw::Rec> = h.recs[0].iter().take(1 + i % 3).cloned().collect();
        for x in &mut recs {
            x.mtime = id.2 - (i as i64);
        }
        let mut man = manif::random_man(r, 1);
        man.vols.truncate(1);
        w.add_set(id, recs, man, cfg, r);
    }
    w
}

fn p05(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let mut cfg = WCfg::tame();
    cfg.chains = 4;
    cfg.snaps = 5;
    cfg.fs.ops = 4;
    cfg.plain_enc = r.bool();
    let forest_case = r.chance(1, 4);
    let mut w = if r.chance(1, 400) {
        many(r, &cfg)
    } else if forest_case {
        forest(r, &cfg)
    } else {
        bworld::build(r, &cfg)
    };
    // remove and encrypt
    let drop_one_in = *r.pick(&[3u64, 6, 12, 30]);
    let enc_one_in = *r.pick(&[6u64, 20, 1_000_000]);
    let mut kept: Vec<FName> = Vec::new();
    let mut missing = 0;
    for f in w.names.clone() {
        let vol = matches!(f.part, Part::Vol(_));
        if r.below(drop_one_in) == 0 {
            w.files.remove(f.text.as_bytes());
            missing += 1;
            continue;
        }
        if !vol && r.below(enc_one_in) == 0 {
            w.files.remove(f.text.as_bytes());
            let g = names::make(f.id, f.part, false, ".gpg", Case::Upper, r);
            let mut data = vec![0x85u8, 0x01, 0x0c];
            let n = r.usize(2000);
            data.extend(r.bytes(n));
            w.files.insert(g.text.clone().into_bytes(), Arc::new(data));
            kept.push(g);
            missing += 1;
            continue;
        }
        kept.push(f);
    }
    w.names = kept;
    let mut xs = w.expected();
    c.note(|| w.describe());
    let be = bworld::mem(&w);
    let b = bworld::open(be)?;
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == xs.len(), "{} snapshots, expected {}", ss.len(), xs.len());
    if forest_case {
        // the order of the chains that end at the same time is not claimed
        let mut by_id = Vec::new();
        for s in &ss {
            let g = s.as_backup_set();
            let id = (s.is_incremental(), g.start_time().sec, g.end_time().sec);
            match xs.iter().position(|x| x.set.id == id) {
                Some(k) => by_id.push(xs.remove(k)),
                None => return Err(format!("unexpected snapshot {:?}", id)),
            }
        }
        xs = by_id;
        c.count("snapshots of forks and side by side chains", xs.len() as u64);
    }
    let mut order: Vec<usize> = (0..xs.len()).chain(0..xs.len()).collect();
    c.rng.shuffle(&mut order);
    let (mut ok, mut bad, mut ents) = (0, 0, 0);
    for i in order {
        let at = |e: String| format!("snapshot {} ({:?}): {}", i, xs[i].set.id, e);
        bworld::check_snap(&ss[i], &xs[i]).map_err(at)?;
        if c.rng.bool() {
            ents += bworld::check_entries(&ss[i], &xs[i], true).map_err(at)?;
            bworld::check_manifest(&ss[i], &xs[i]).map_err(at)?;
        } else {
            bworld::check_manifest(&ss[i], &xs[i]).map_err(at)?;
            ents += bworld::check_entries(&ss[i], &xs[i], true).map_err(at)?;
        }
        for x in [xs[i].entries.is_some(), xs[i].manifest.is_some()] {
            if x {
                ok += 1;
            } else {
                bad += 1;
            }
        }
    }
    // the same signatures, through the chains of signature files
    let m = names::model(&w.names);
    if !m.sig_ties {
        let be = bworld::mem(&w);
        let listed = be.file_names().map_err(|e| e.to_string())?;
        let coll = Collections::from_filenames(listed);
        let chains: Vec<_> = coll.signature_chains().collect();
        ensure!(chains.len() == m.sigs.len(), "{} signature chains, expected {}", chains.len(), m.sigs.len());
        for (g, x) in chains.iter().zip(&m.sigs) {
            let at = |e: String| format!("signature chain of {}: {}", x[0].text, e);
            let usable = x.iter().take_while(|f| !f.enc).count();
            match Chain::from_sigchain(g, &be) {
                Err(e) => {
                    ensure!(usable == 0, "signature chain of {}: {}", x[0].text, e);
                    bad += 1;
                }
                Ok(ch) => {
                    ensure!(usable > 0, "the chain of the encrypted {} is read with {} snapshots", x[0].text, ch.snapshots().count());
                    let got: Vec<_> = ch.snapshots().collect();
                    ensure!(got.len() == usable, "signature chain of {}: {} snapshots, expected {}", x[0].text, got.len(), usable);
                    let mut rp = Replay::default();
                    for (s, f) in got.iter().zip(x) {
                        if let Some(rs) = w.recs.get(&f.id) {
                            rp.apply(rs);
                        }
                        let l = model::listing(s.files(), model::CAP).map_err(at)?;
                        model::diff(&l, &rp.list(), true).map_err(at)?;
                        ents += l.len();
                        ok += 1;
                    }
                }
            }
        }
    }
    c.count("requests that must succeed", ok);
    c.count("requests that must fail", bad);
    c.count("entries compared", ents as u64);
    if missing > 0 && ok > 0 {
        let mut f = Fnv::new();
        for n in w.files.keys() {
            f.add(n);
        }
        c.distinct(f.0);
    }
    c.sample(|| format!("{} snapshots, {} files missing or encrypted, {} requests must fail", xs.len(), missing, bad));
    Ok(())
}

fn shuffled(r: &mut Rng, fs: &[FName]) -> Vec<String> {
    let mut v: Vec<String> = fs.iter().map(|f| f.text.clone()).collect();
    r.shuffle(&mut v);
    v
}

fn name_hash(v: &[FName]) -> u64 {
    let mut t: Vec<&str> = v.iter().map(|f| &f.text[..]).collect();
    t.sort();
    let mut f = Fnv::new();
    for x in t {
        f.add(x.as_bytes());
    }
    f.0
}

fn p06(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let max = if r.chance(1, 10) { 40 } else { 10 };
    let ids = if r.chance(1, 4) {
        names::twin_ids(r)
    } else {
        names::random_ids(r, max)
    };
    let files = if c.idx % 60_000 == 4 {
        // a long history: a chain of two thousand sets, and a chain for each of some hundreds
        let ts = names::instants(r, 2600);
        let mut v = Vec::new();
        for i in 0..ts.len() {
            let id = if i == 0 || i >= 2000 { (false, ts[i], ts[i]) } else { (true, ts[i - 1], ts[i]) };
            for part in [Part::Man, Part::Sig, Part::Vol(1)] {
                v.push(names::make(id, part, false, if part == Part::Man { "" } else { ".gz" }, names::Case::Upper, r));
            }
        }
        v
    } else {
        names::random_files(r, &ids, false)
    };
    let m = names::model(&files);
    let listed = shuffled(r, &files);
    c.note(|| listed.join("\n"));
    let coll = Collections::from_filenames(&listed);
    let mut sets = 0;
    names::check_chains(&coll, &m, |_, _| {
        sets += 1;
        Ok(())
    })?;
    // the same through the top level
    let mut fs = bworld::Files::new();
    for f in &files {
        fs.insert(f.text.clone().into_bytes(), Arc::new(vec![]));
    }
    let be = Mem::with_names(&fs, listed.iter().map(|s| s.clone().into_bytes()).collect());
    let b = bworld::open(be)?;
    let ss = bworld::snaps(&b)?;
    let want: Vec<_> = m.chains.iter().flat_map(|c| c.sets.iter()).collect();
    ensure!(ss.len() == want.len(), "{} snapshots, expected {}", ss.len(), want.len());
    // (the order of chains that end at the same time is not claimed)
    let tie = m.chains.windows(2).any(|w| w[0].end() == w[1].end());
    for (s, w) in ss.iter().zip(&want).take(if tie { 0 } else { want.len() }) {
        ensure!(
            s.time().sec == w.end() && s.is_full() == !w.inc() && s.is_incremental() == w.inc(),
            "snapshot at {} (full {}), expected {:?}",
            s.time().sec,
            s.is_full(),
            w.id
        );
        names::check_set_times(s.as_backup_set(), w)?;
    }
    c.count("sets compared", sets);
    c.count("orphan sets left out", m.orphans as u64);
    c.count("incrementals replaced", m.replaced as u64);
    if !m.sig_ties {
        c.count("signature chains compared", m.sigs.len() as u64);
    }
    if ids.iter().any(|i| i.0) {
        c.distinct(name_hash(&files));
    }
    c.sample(|| {
        format!(
            "{} names, {} chains with {:?} sets, {} orphans, {} replaced",
            files.len(),
            m.chains.len(),
            m.chains.iter().map(|c| c.sets.len()).collect::<Vec<_>>(),
            m.orphans,
            m.replaced
        )
    });
    Ok(())
}

pub fn dump_set(s: &BackupSet, vols: &[u64]) -> String {
    let mut t = format!(
        "{} {} {} {} {} {} {} {} {} {:?} {}",
        s.is_full(),
        s.is_incremental(),
        s.start_time().sec,
        s.end_time().sec,
        s.is_complete(),
        s.is_partial(),
        s.is_compressed(),
        s.is_encrypted(),
        s.num_volumes(),
        s.manifest_path(),
        s
    );
    for v in vols {
        if let Some(p) = s.volume_path(*v as usize) {
            t.push_str(&format!(" {}={}", v, p));
        }
    }
    t
}

/// Everything a collection reports.
pub fn dump(c: &Collections, vols: &[u64]) -> String {
    let mut t = format!("{} snapshots\n", c.num_snapshots());
    for ch in c.backup_chains() {
        t.push_str(&format!("chain {} {}\n", ch.start_time().sec, ch.end_time().sec));
        t.push_str(&dump_set(ch.full_set(), vols));
        t.push('\n');
        for s in ch.inc_sets() {
            t.push_str(&dump_set(s, vols));
            t.push('\n');
        }
    }
    for sc in c.signature_chains() {
        t.push_str(&format!("sigs {} {}", sc.start_time().sec, sc.end_time().sec));
        for s in std::iter::once(sc.full_signature()).chain(sc.inc_signatures()) {
            t.push_str(&format!(
                " {} {} {} {}",
                s.file_name, s.time.sec, s.compressed, s.encrypted
            ));
        }
        t.push('\n');
    }
    t.push_str(&format!("{}", c));
    t
}

fn first_diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{:?} instead of {:?}", x, y);
        }
    }
    format!("{} lines instead of {}", a.lines().count(), b.lines().count())
}

fn p07(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let mut ids = names::random_ids(r, 8);
    let mut rich = false;
    if r.bool() {
        // equal end times, zero-length incrementals, same start and end
        for _ in 0..1 + r.usize(3) {
            let a = *r.pick(&ids);
            let b = *r.pick(&ids);
            ids.push((r.bool(), a.1.min(b.2), b.2));
        }
        for i in &mut ids {
            if !i.0 {
                i.1 = i.2;
            }
        }
        ids.sort();
        ids.dedup();
        rich = true;
    }
    let mut files = names::random_files(r, &ids, false);
    if r.bool() {
        // more files for the same purpose
        for _ in 0..1 + r.usize(4) {
            let f = r.pick(&files).clone();
            let s = names::suffix(r, f.part);
            let p = r.chance(1, 3) && !matches!(f.part, Part::Vol(_));
            files.push(names::make(f.id, f.part, p, s, Case::Upper, r));
        }
        rich = true;
    }
    files.sort_by(|a, b| a.text.cmp(&b.text));
    files.dedup_by(|a, b| a.text == b.text);
    let vols = [0u64, 1, 2, 3, 4, 5, 9];
    let base: Vec<Vec<u8>> = files.iter().map(|f| f.text.clone().into_bytes()).collect();
    let to_os = |v: &[Vec<u8>]| -> Vec<OsString> { v.iter().map(|b| OsString::from_vec(b.clone())).collect() };
    let want = dump(&Collections::from_filenames(to_os(&base)), &vols);
    let nf = r.usize(12);
    let noise: Vec<Vec<u8>> = (0..nf).map(|_| names::foreign_near(r, &ids)).collect();
    let bad = noise.iter().filter(|n| std::str::from_utf8(n).is_err()).count();
    c.note(|| {
        base.iter()
            .chain(&noise)
            .map(|b| esc(b))
            .collect::<Vec<_>>()
            .join("\n")
    });
    let mut perms = 0;
    for k in 0..5 {
        let r = &mut c.rng;
        let mut v = base.clone();
        match k {
            0 => v.reverse(),
            _ => r.shuffle(&mut v),
        }
        if k >= 2 {
            for n in &noise {
                let at = r.usize(v.len() + 1);
                v.insert(at, n.clone());
            }
        }
        if k == 4 && !v.is_empty() {
            // the same name more than once
            for _ in 0..2 {
                let x = r.pick(&v).clone();
                let at = r.usize(v.len() + 1);
                v.insert(at, x);
            }
        }
        let got = dump(&Collections::from_filenames(to_os(&v)), &vols);
        perms += 1;
        ensure!(
            got == want,
            "listing {} of the same names gives another backup: {}",
            k,
            first_diff(&got, &want)
        );
        // foreign names alone describe nothing
        if k == 4 {
            let e = Collections::from_filenames(to_os(&noise));
            ensure!(
                e.num_snapshots() == 0
                    && e.backup_chains().count() == 0
                    && e.signature_chains().count() == 0,
                "foreign names alone give {} snapshots and {} signature chains: {:?}",
                e.num_snapshots(),
                e.signature_chains().count(),
                noise.iter().map(|n| esc(n)).collect::<Vec<_>>()
            );
            let mut fs = bworld::Files::new();
            for n in v.iter() {
                fs.insert(n.clone(), Arc::new(vec![]));
            }
            let b = bworld::open(Mem::with_names(&fs, v.clone()))?;
            let s = b.snapshots().map_err(|e| e.to_string())?;
            let got = dump(s.as_collections(), &vols);
            ensure!(got == want, "through a backend: {}", first_diff(&got, &want));
        }
    }
    c.count("permutations compared", perms);
    c.count("foreign names", nf as u64);
    c.count("names that are not UTF-8", bad as u64);
    if rich || want.matches("chain ").count() > 1 {
        c.distinct(name_hash(&files));
    }
    c.sample(|| format!("{} names and {} foreign ones, such as {:?}", files.len(), nf, noise.first().map(|n| esc(n))));
    Ok(())
}

fn p08(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let ids = names::random_ids(r, 5);
    let files = if c.idx % 60_000 == 4 {
        // more volumes than sixteen bits can count
        let id = (false, 1_400_000_000, 1_400_000_000);
        let mut v: Vec<_> = (1..65_800)
            .map(|n| names::make(id, Part::Vol(n), false, ".gz", names::Case::Upper, r))
            .collect();
        v.push(names::make(id, Part::Man, false, "", names::Case::Upper, r));
        v
    } else {
        names::random_files(r, &ids, true)
    };
    let m = names::model(&files);
    let listed = shuffled(r, &files);
    let mut probes: Vec<u64> = vec![0, 1, 2, 3, 7, 255, 256, 1 << 32, u64::MAX, u64::MAX - 1];
    for f in &files {
        if let Part::Vol(n) = f.part {
            probes.push(n.wrapping_sub(1));
            probes.push(n.wrapping_add(1));
        }
    }
    for _ in 0..5 {
        probes.push(r.wild());
    }
    c.note(|| listed.join("\n"));
    let bytes: usize = listed.iter().map(|l| l.len()).sum();
    // what is set up once and kept for later, such as a compiled expression, is no part of a collection
    drop(Collections::from_filenames(&listed));
    let meter = Meter::start();
    let coll = Collections::from_filenames(&listed);
    let (peak, kept) = (meter.peak(), meter.retained());
    let mut sets = 0;
    let mut partial = 0;
    let (mut asked, mut manifests) = (0u64, 0u64);
    names::check_chains(&coll, &m, |s, w| {
        sets += 1;
        if w.partial {
            partial += 1;
        }
        names::check_set_files(s, w, &probes)
    })?;
    // what is kept is a few times the names
    ensure!(
        kept <= 4096 + 40 * bytes + 600 * files.len(),
        "{} bytes of heap kept for {} bytes of names",
        kept,
        bytes
    );
    ensure!(
        peak <= (48 << 20) + 100 * bytes,
        "{} bytes of heap used for {} bytes of names",
        peak,
        bytes
    );
    // the snapshots say the same, whatever else is asked before
    if files.len() < 1000 && c.rng.chance(1, 3) {
        let mut fs = bworld::Files::new();
        for f in &files {
            let data = match f.part {
                Part::Man if !f.comp && !f.enc => {
                    let man = manif::random_man(&mut c.rng, 4);
                    manif::write(&man, &manif::Style::plain(), &mut c.rng)
                }
                _ => vec![],
            };
            fs.insert(f.text.clone().into_bytes(), Arc::new(data));
        }
        let b = bworld::open(Mem::with_names(&fs, listed.iter().map(|s| s.clone().into_bytes()).collect()))?;
        let ss = bworld::snaps(&b)?;
        let sets: Vec<_> = coll
            .backup_chains()
            .flat_map(|c| std::iter::once(c.full_set()).chain(c.inc_sets()))
            .collect();
        ensure!(ss.len() == sets.len(), "{} snapshots of {} sets", ss.len(), sets.len());
        let report = |s: &ruplicity::collections::BackupSet| {
            (
                (s.is_full(), s.is_incremental(), s.start_time().sec, s.end_time().sec, s.num_volumes()),
                (s.is_complete(), s.is_partial(), s.is_compressed(), s.is_encrypted()),
                (s.manifest_path().to_owned(), probes.iter().map(|p| s.volume_path(*p as usize).map(str::to_owned)).collect::<Vec<_>>()),
            )
        };
        for _ in 0..3 {
            for (i, (s, want)) in ss.iter().zip(&sets).enumerate() {
                ensure!(
                    (s.num_volumes(), s.is_full(), s.is_incremental(), s.time().sec)
                        == (want.num_volumes(), want.is_full(), want.is_incremental(), want.end_time().sec)
                        && report(s.as_backup_set()) == report(want),
                    "snapshot {} says it has {} volumes, is full {}, ends at {} and is the set {:?}, but the set is {:?}",
                    i,
                    s.num_volumes(),
                    s.is_full(),
                    s.time().sec,
                    report(s.as_backup_set()),
                    report(want)
                );
                asked += 1;
            }
            for s in &ss {
                match c.rng.below(3) {
                    0 => manifests += s.manifest().is_ok() as u64,
                    1 => drop(s.entries().is_ok()),
                    _ => (),
                }
            }
        }
    }
    let huge = files
        .iter()
        .filter(|f| matches!(f.part, Part::Vol(n) if n > 1_000_000))
        .count();
    c.count("snapshots compared with their sets", asked);
    c.count("manifests read in between", manifests);
    c.count("sets compared", sets);
    c.count("partial sets", partial);
    c.count("huge volume numbers", huge as u64);
    c.count("volume probes", sets * probes.len() as u64);
    c.max("heap peak", peak as u64);
    c.max("heap kept", kept as u64);
    if huge > 0 || partial > 0 {
        c.distinct(name_hash(&files));
    }
    c.sample(|| listed.join(" "));
    Ok(())
}
