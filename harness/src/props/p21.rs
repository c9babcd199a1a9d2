//! P21 (damaged archives), P22 (encodings and delivery).

use crate::be::{Chunk, Mem};
use crate::bworld::{self, BWorld, WCfg};
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::model::{self, Ent, Replay};
use crate::names::{self, Case, Id, Part};
use crate::sup::Prop;
use crate::tarw::{self, Enc, Eof, Kind, Rec, Span};
use crate::util::{Fnv, Rng};
use crate::world;
use std::collections::BTreeMap;
use std::io::Read;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P21",
            f: p21,
            quick: 1500,
            thorough: 24000,
            level: "fault_enumeration",
            rule: "a case is a chain of 1-5 archives; one of them is cut at every block boundary, just around it, around every member's end and at random bytes, plain and compressed (whatever the decompressor still gives counts as present), and has single bytes of member headers changed at every field; every snapshot of the chain is listed and compared; distinct by (archive, kind of damage, place), non-trivial if the damage lost a record",
            need: &[("damaged chains listed", 45_000), ("cuts", 30_000), ("cuts of compressed archives", 10_000), ("header bytes changed", 15_000), ("records that had to survive", 100_000), ("snapshots before the damage compared", 40_000)],
            assumptions: &["a single changed byte; changes that keep the header's checksum are not detectable", "only headers are changed, not the data of long-name extensions"],
        },
        Prop {
            id: "P22",
            f: p22,
            quick: 6000,
            thorough: 60000,
            level: "exploration",
            rule: "a case is a history encoded in several ways (per member: GNU, ustar or PAX names, octal, base-256 or PAX numbers, slashes, magic; per archive: plain or gzip of any block structure, end markers) and delivered by several schedules (whole, one byte, fixed and random chunks, interrupted reads); each is compared with the same expectation; distinct by (encoding, schedule, archive), non-trivial if the encodings differ",
            need: &[("encoded backups listed", 12_000), ("entries compared", 300_000), ("interrupted reads", 100_000), ("reads of a few bytes", 1_000_000), ("member encodings", 200_000)],
            assumptions: &["paths with a newline are not written as PAX records (the tar library cannot read them)"],
        },
    ]
}

// ---------------------------------------------------------------------------------------------

/// What may be known of each path after `done` records for sure, and possibly those after.
struct Allowed {
    sure: Replay,
    /// further states of a path: present as recorded, or absent
    maybe: BTreeMap<model::Key, Vec<Option<Ent>>>,
}

impl Allowed {
    fn new(prev: &Replay, recs: &[Rec], done: usize) -> Allowed {
        let mut sure = prev.clone();
        sure.apply(&recs[..done]);
        let mut maybe: BTreeMap<model::Key, Vec<Option<Ent>>> = BTreeMap::new();
        for r in &recs[done..] {
            let st = match r.kind {
                Kind::Noise => continue,
                Kind::Del => None,
                _ => Some(model::expect_ent(r)),
            };
            maybe.entry(model::key(&r.path)).or_insert_with(Vec::new).push(st);
        }
        Allowed { sure, maybe }
    }
    /// later, undamaged records
    fn then(&mut self, recs: &[Rec]) {
        self.sure.apply(recs);
        for r in recs {
            if r.kind != Kind::Noise {
                self.maybe.remove(&model::key(&r.path));
            }
        }
    }
    fn check(&self, got: &[Ent]) -> R {
        let mut seen = BTreeMap::new();
        let mut last: Option<model::Key> = None;
        for e in got {
            let k = model::key(&e.path);
            if let Some(ref l) = last {
                ensure!(*l < k, "{} is out of order or repeated", e.show());
            }
            last = Some(k.clone());
            let sure = self.sure.0.get(&k);
            let empty = Vec::new();
            let more = self.maybe.get(&k).unwrap_or(&empty);
            let ok = sure == Some(e)
                || more.iter().flatten().any(|m| {
                    // the damaged record's own size may be unknown
                    let mut g = e.clone();
                    if g.size.is_none() {
                        g.size = m.size;
                    }
                    g == *m
                });
            ensure!(
                ok,
                "{} is reported, but {}",
                e.show(),
                match sure {
                    Some(s) => format!("what was recorded before the damage is {}", s.show()),
                    None => "it was not recorded, or was deleted, before the damage".to_owned(),
                }
            );
            seen.insert(k, ());
        }
        for (k, e) in &self.sure.0 {
            if !seen.contains_key(k) {
                let ok = self.maybe.get(k).map_or(false, |v| v.iter().any(|x| x.is_none()));
                ensure!(ok, "{} was recorded before the damage and is not reported", e.show());
            }
        }
        Ok(())
    }
}

struct Chain {
    recs: Vec<Vec<Rec>>,
    tars: Vec<Vec<u8>>,
    spans: Vec<Vec<Span>>,
    ids: Vec<Id>,
}

/// the bytes that can still be decompressed
fn inflate(data: &[u8]) -> Vec<u8> {
    let mut d = flate2::read::MultiGzDecoder::new(data);
    let mut out = Vec::new();
    let mut buf = [0u8; 64];
    loop {
        match d.read(&mut buf) {
            Ok(0) | Err(_) => return out,
            Ok(n) => out.extend_from_slice(&buf[..n]),
        }
    }
}

#[derive(Default)]
struct T21 {
    listed: u64,
    survive: u64,
    before: u64,
}

fn check_damaged(
    ch: &Chain,
    prev: &[Replay],
    files: &[(Vec<u8>, Arc<Vec<u8>>)],
    k: usize,
    bytes: Vec<u8>,
    done: usize,
    chunk: Chunk,
    t: &mut T21,
) -> R {
    let mut fs = bworld::Files::new();
    for (i, (n, d)) in files.iter().enumerate() {
        fs.insert(n.clone(), if i == k { Arc::new(bytes.clone()) } else { d.clone() });
    }
    let be = Mem::new(&fs);
    be.with(|s| s.chunk = chunk);
    let b = bworld::open(be)?;
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == ch.ids.len(), "{} snapshots, expected {}", ss.len(), ch.ids.len());
    let mut al = Allowed::new(&prev[k], &ch.recs[k], done);
    for (i, s) in ss.iter().enumerate() {
        let got = bworld::entries_of(s).map_err(|e| format!("snapshot {}: {}", i, e))?;
        if i < k {
            model::diff(&got, &prev[i + 1].list(), true)
                .map_err(|e| format!("snapshot {}, earlier than the damage: {}", i, e))?;
            t.before += 1;
        } else {
            if i > k {
                al.then(&ch.recs[i]);
            }
            al.check(&got).map_err(|e| {
                format!(
                    "snapshot {} ({}): {}",
                    i,
                    if i == k { "the damaged one" } else { "later than the damage" },
                    e
                )
            })?;
        }
    }
    t.listed += 1;
    t.survive += done as u64;
    Ok(())
}

fn p21(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let n = 1 + r.usize(5);
    let mut cfg = world::Cfg::tame();
    cfg.text = r.bool();
    cfg.ops = 5;
    cfg.max_nodes = 10;
    cfg.noise = r.chance(1, 4);
    let ts = names::instants(r, n);
    let h = if r.chance(1, 4) {
        world::wild_history(r, n, &cfg)
    } else {
        world::history(r, n, ts[0], &cfg)
    };
    let mut ch = Chain {
        recs: h.recs,
        tars: Vec::new(),
        spans: Vec::new(),
        ids: Vec::new(),
    };
    let mut rr = r.fork();
    for i in 0..n {
        let plain = r.bool();
        let (tar, spans) = tarw::write_tar(&ch.recs[i], *r.pick(&[Eof::Two, Eof::Record]), |_| {
            if plain {
                Enc::plain()
            } else {
                Enc::random(&mut rr)
            }
        });
        ch.tars.push(tar);
        ch.spans.push(spans);
        ch.ids.push(if i == 0 { (false, ts[0], ts[0]) } else { (true, ts[i - 1], ts[i]) });
    }
    let mut prev = vec![Replay::default()];
    for rs in &ch.recs {
        let mut p = prev[prev.len() - 1].clone();
        p.apply(rs);
        prev.push(p);
    }
    let comp = r.bool();
    let k = r.usize(n);
    let mut files: Vec<(Vec<u8>, Arc<Vec<u8>>)> = Vec::new();
    for i in 0..n {
        let gz = if i == k { comp } else { r.bool() };
        let f = names::make(ch.ids[i], Part::Sig, false, if gz { ".gz" } else { "" }, Case::Upper, r);
        let d = if gz { tarw::gz(&ch.tars[i], 6) } else { ch.tars[i].clone() };
        files.push((f.text.into_bytes(), Arc::new(d)));
    }
    c.note(|| {
        let mut s = format!("{} archives, the damaged one is {}, compressed {}\n", n, k, comp);
        for (i, rs) in ch.recs.iter().enumerate() {
            for (x, sp) in rs.iter().zip(&ch.spans[i]) {
                s.push_str(&format!("  {} {:?} {} {:?}\n", i, x.kind, crate::util::esc(&x.path), sp));
            }
        }
        s
    });
    let mut t = T21::default();
    let tar = ch.tars[k].clone();
    let spans = ch.spans[k].clone();
    let full = files[k].1.clone();
    let id = crate::util::hash(&full);
    let chunk = |r: &mut Rng| match r.below(4) {
        0 => Chunk::Fixed(1 + r.usize(700)),
        1 => Chunk::Random(2000),
        _ => Chunk::Full,
    };
    // cuts
    let mut cuts: Vec<usize> = Vec::new();
    if comp {
        for _ in 0..24 {
            cuts.push(c.rng.usize(full.len()));
        }
        cuts.extend_from_slice(&[0, 1, 9, 10, 11, full.len() - 1, full.len() - 8, full.len() - 9]);
    } else {
        let mut at = 0;
        while at <= full.len() {
            for d in [-1i64, 0, 1] {
                let x = at as i64 + d;
                if x >= 0 && (x as usize) < full.len() {
                    cuts.push(x as usize);
                }
            }
            at += 512;
        }
        for s in &spans {
            for x in [s.body_end, s.body_end + 1, s.end, s.start, s.header + 100] {
                if x < full.len() {
                    cuts.push(x);
                }
            }
            if s.body_end > 0 {
                cuts.push(s.body_end - 1);
            }
        }
        for _ in 0..16 {
            cuts.push(c.rng.usize(full.len().max(1)));
        }
        cuts.sort();
        cuts.dedup();
        let max = if c.thorough { 200 } else { 24 };
        if cuts.len() > max {
            c.rng.shuffle(&mut cuts);
            cuts.truncate(max);
        }
    }
    for cut in cuts {
        let bytes = full[..cut].to_vec();
        let left = if comp { inflate(&bytes).len() } else { cut };
        let done = spans.iter().take_while(|s| s.body_end <= left).count();
        let how = chunk(&mut c.rng);
        check_damaged(&ch, &prev, &files, k, bytes, done, how, &mut t)
            .map_err(|e| format!("archive {} cut to {} of {} bytes ({} of {} records whole): {}", k, cut, full.len(), done, spans.len(), e))?;
        c.count("cuts", 1);
        if comp {
            c.count("cuts of compressed archives", 1);
        }
        if done < spans.len() {
            c.distinct_of(&[&id.to_le_bytes(), b"cut", &cut.to_le_bytes()]);
        }
    }
    // one byte of a header
    if !spans.is_empty() {
        // name, mode, ids, size, time, checksum, type, link, magic, user, group, device, prefix
        let fields = [0usize, 99, 100, 107, 108, 116, 124, 130, 135, 136, 147, 148, 150, 154, 155, 156, 157, 256, 257, 262, 263, 265, 297, 329, 345, 499, 500, 511];
        for _ in 0..14 {
            let m = c.rng.usize(spans.len());
            let off = if c.rng.bool() { *c.rng.pick(&fields) } else { c.rng.usize(512) };
            // its own header, or the first one of its extensions
            let base = if c.rng.bool() { spans[m].header } else { spans[m].start };
            let mut bad = tar.clone();
            let old = bad[base + off];
            let new = match c.rng.below(4) {
                0 => old ^ (1 << c.rng.below(8)),
                1 => 0,
                2 => 0xff,
                _ => c.rng.next() as u8,
            };
            if new == old {
                continue;
            }
            bad[base + off] = new;
            let bytes = if comp { tarw::gz(&bad, 1) } else { bad };
            let how = chunk(&mut c.rng);
            check_damaged(&ch, &prev, &files, k, bytes, m, how, &mut t).map_err(|e| {
                format!("archive {}, member {} of {}: byte {} of the header changed from {:#x} to {:#x}: {}", k, m, spans.len(), off, old, new, e)
            })?;
            c.count("header bytes changed", 1);
            c.distinct_of(&[&id.to_le_bytes(), b"byte", &(base + off).to_le_bytes(), &[new]]);
        }
    }
    c.count("damaged chains listed", t.listed);
    c.count("records that had to survive", t.survive);
    c.count("snapshots before the damage compared", t.before);
    c.sample(|| format!("{} archives, number {} ({} members, compressed: {}) damaged in {} ways", n, k, spans.len(), comp, t.listed));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn p22(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let mut cfg = WCfg::tame();
    cfg.chains = 1;
    cfg.snaps = 3;
    cfg.fs.ops = 6;
    cfg.fs.text = r.bool();
    cfg.fs.sane = r.bool();
    cfg.fs.noise = r.chance(1, 3);
    cfg.wild = r.chance(1, 4);
    let w: BWorld = bworld::build(r, &cfg);
    let xs = w.expected();
    c.note(|| w.describe());
    let mut seen: Option<String> = None;
    for v in 0..6 {
        let r = &mut c.rng;
        let mut files = w.files.clone();
        let mut fnames = w.names.clone();
        let mut h = Fnv::new();
        let mut encs = 0;
        for f in &mut fnames {
            if f.part != Part::Sig {
                continue;
            }
            files.remove(f.text.as_bytes());
            let comp = r.bool();
            let g = names::make(f.id, f.part, false, if comp { *r.pick(&[".gz", ".z"]) } else { "" }, Case::Upper, r);
            let recs = &w.recs[&f.id];
            let style = if v == 0 { 0 } else { r.below(3) };
            let one = Enc::random(r);
            let mut rr = r.fork();
            let end = *r.pick(&[Eof::None, Eof::One, Eof::Two, Eof::Record]);
            let (tar, _) = tarw::write_tar(recs, end, |_| {
                let e = match style {
                    0 => Enc::plain(),
                    1 => one,
                    _ => Enc::random(&mut rr),
                };
                encs += 1;
                h.add(format!("{:?}", e).as_bytes());
                e
            });
            let data = if comp {
                match r.below(3) {
                    0 => tarw::gz_multi(&tar, r),
                    1 => tarw::gz(&tar, 0),
                    _ => tarw::gz(&tar, *r.pick(&[1, 6, 9])),
                }
            } else {
                tar
            };
            h.add(&data);
            files.insert(g.text.clone().into_bytes(), Arc::new(data));
            *f = g;
        }
        let be = Mem::new(&files);
        let seed = r.next();
        let chunk = match r.below(5) {
            0 => Chunk::Fixed(1),
            1 => Chunk::Fixed(2 + r.usize(20)),
            2 => Chunk::Fixed(*r.pick(&[511, 512, 513, 1024, 4096])),
            3 => Chunk::Random(*r.pick(&[3, 100, 2000])),
            _ => Chunk::Full,
        };
        let few = match chunk {
            Chunk::Fixed(n) => n < 25,
            Chunk::Random(n) => n < 25,
            _ => false,
        };
        let interrupt = *r.pick(&[0u64, 0, 2, 5, 50]);
        be.with(|s| {
            s.rng = Rng::new(seed);
            s.chunk = chunk.clone();
            s.interrupt = interrupt;
        });
        h.add(format!("{:?} {}", chunk, interrupt).as_bytes());
        let at = |e: String| format!("encoding {} delivered as {:?}, one read in {} interrupted: {}", v, chunk, interrupt, e);
        let b = bworld::open(be.clone()).map_err(at)?;
        let mut n = 0;
        let ss = bworld::snaps(&b).map_err(at)?;
        ensure!(ss.len() == xs.len(), "{} snapshots, expected {}", ss.len(), xs.len());
        let mut all = String::new();
        for (i, (s, x)) in ss.iter().zip(&xs).enumerate() {
            n += bworld::check_entries(s, x, true).map_err(|e| at(format!("snapshot {}: {}", i, e)))?;
            bworld::check_manifest(s, x).map_err(|e| at(format!("snapshot {}: {}", i, e)))?;
            match s.entries() {
                Ok(e) => all.push_str(&e.to_string()),
                Err(e) => return Err(at(e.to_string())),
            }
        }
        match seen {
            None => seen = Some(all),
            Some(ref x) => ensure!(*x == all, "{}", at("the displayed listing differs from the one of another encoding".into())),
        }
        let (reads, ints) = be.with(|s| (s.reads, s.interrupts));
        c.count("encoded backups listed", 1);
        c.count("entries compared", n as u64);
        c.count("interrupted reads", ints);
        if few {
            c.count("reads of a few bytes", reads);
        }
        c.count("member encodings", encs);
        if encs > 0 {
            c.distinct(h.0);
        }
    }
    c.sample(|| format!("{} snapshots, {} encodings each", xs.len(), 6));
    Ok(())
}
