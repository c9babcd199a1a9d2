//! P09 (round trip of manifests), P10 (malformed manifests), P11 (volume lookup).

use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::manif::{self, Man, Style};
use crate::model::key;
use crate::sup::Prop;
use crate::util::{esc, hash, Fnv, Rng};
use crate::world;
use ruplicity::manifest::{Manifest, ParseError};
use std::io::{self, BufRead, BufReader, Cursor, Read};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P09",
            f: p09,
            quick: 30000,
            thorough: 800000,
            level: "exploration",
            rule: "a case is a random manifest (any path bytes, 0-12 volumes, a few hundred or, once, more than 65536, blocks up to 2^64-1) written by an independent writer with random padding, line ends and blank lines, parsed through readers that split the input differently; distinct by bytes, non-trivial if it has a volume and a quoted word",
            need: &[("manifests parsed", 80_000), ("quoted words", 50_000), ("volumes compared", 200_000)],
            assumptions: &["host names have no whitespace, quotes or backslashes (duplicity does not quote them)", "padding is made of spaces"],
        },
        Prop {
            id: "P10",
            f: p10,
            quick: 20000,
            thorough: 500000,
            level: "fault_enumeration",
            rule: "a case is a valid manifest with one defect (every kind of defect at a random place, every cut between lines, an I/O error at every read) or with random damage; distinct by bytes, non-trivial if the parse had to fail",
            need: &[("defects that must be rejected", 100_000), ("I/O errors injected", 50_000), ("damaged manifests accepted with all their volumes", 100), ("cuts between lines", 50_000)],
            assumptions: &[],
        },
        Prop {
            id: "P11",
            f: p11,
            quick: 20000,
            thorough: 300000,
            level: "exploration",
            rule: "a case is a manifest whose volumes cover a random path universe in backup order (files split over several volumes, with and without block numbers, up to 300 volumes or, once, more than 65536) and queries for every path, its neighbours and the root; distinct by manifest, non-trivial if some path is in more than one volume",
            need: &[("lookups compared", 500_000), ("paths in several volumes", 20_000), ("paths in no volume", 20_000)],
            assumptions: &[],
        },
    ]
}

/// A reader that gives at most `n` bytes at a time and can be interrupted or fail.
pub struct Slow<'a> {
    data: &'a [u8],
    n: usize,
    reads: u64,
    fail_at: Option<(u64, io::ErrorKind, &'static str)>,
    interrupt: bool,
}
impl<'a> Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.reads;
        self.reads += 1;
        if let Some((at, kind, msg)) = self.fail_at {
            if k == at {
                return Err(io::Error::new(kind, msg));
            }
        }
        if self.interrupt && k % 2 == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = self.n.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn parse(data: &[u8]) -> Result<Manifest, ParseError> {
    Manifest::parse(&mut Cursor::new(data))
}

/// Whether this is the case of more items than sixteen bits can count.
pub fn vast(c: &Ctx, at: u64) -> bool {
    c.idx % 60_000 == at
}

fn p09(c: &mut Ctx) -> R {
    if vast(c, 4) {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let n = 65_530 + r.usize(300);
        let mut m = manif::random_man(r, 0);
        let few = manif::random_man(r, 12);
        for i in 0..n {
            let mut v = match few.vols.get(i % 13) {
                Some(v) => v.clone(),
                None => manif::MVol {
                    start: i.to_string().into_bytes(),
                    sblock: Some(i as u64),
                    end: (i + 1).to_string().into_bytes(),
                    eblock: None,
                    htype: "SHA1".into(),
                    hash: r.bytes(4),
                },
            };
            v.hash.truncate(20);
            if v.start.len() + v.end.len() > 200 {
                v.start = b"start".to_vec();
                v.end = b"start/end".to_vec();
            }
            m.vols.push(v);
        }
        c.note(|| format!("{} volumes", n));
        let data = manif::write(&m, &Style::random(r), r);
        let got = parse(&data).map_err(|e| format!("{} volumes: rejected: {:?}", n, e))?;
        manif::compare(&got, &m)?;
        c.count("volumes compared", n as u64);
        c.max("volumes in a manifest", n as u64);
        c.distinct(hash(&data));
        return Ok(());
    }
    let r = &mut c.rng;
    let max = if r.chance(1, 200) { 400 } else { 12 };
    let m = manif::random_man(r, max);
    let st = Style::random(r);
    let data = manif::write(&m, &st, r);
    c.note(|| format!("{:?}\n{}", m, String::from_utf8_lossy(&data)));
    let chunk = 1 + c.rng.usize(40);
    let cap = 1 + c.rng.usize(64);
    let want = parse(&data).map_err(|e| format!("rejected: {:?} in {:?}", e, esc(&data)))?;
    manif::compare(&want, &m)?;
    let mut readers: Vec<(&str, Box<dyn BufRead + '_>)> = Vec::new();
    let slow = |n: usize, interrupt: bool| Slow {
        data: &data,
        n,
        reads: 0,
        fail_at: None,
        interrupt,
    };
    readers.push(("one byte at a time", Box::new(BufReader::with_capacity(1, slow(1, false)))));
    readers.push(("interrupted", Box::new(BufReader::with_capacity(cap, slow(chunk, true)))));
    readers.push(("small buffer", Box::new(BufReader::with_capacity(cap, slow(usize::MAX, false)))));
    let mut n = 1;
    for (what, mut rd) in readers {
        let got = Manifest::parse(&mut rd).map_err(|e| format!("{}: rejected: {:?}", what, e))?;
        manif::compare(&got, &m).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(got == want, "{}: not equal", what);
        n += 1;
    }
    // another layout of the same manifest
    let st2 = Style::random(&mut c.rng);
    let data2 = manif::write(&m, &st2, &mut c.rng);
    let got = parse(&data2).map_err(|e| format!("second layout rejected: {:?} in {:?}", e, esc(&data2)))?;
    manif::compare(&got, &m).map_err(|e| format!("second layout: {}", e))?;
    n += 1;
    let quoted = manif::lines(&m)
        .iter()
        .flat_map(|l| l.iter())
        .filter(|w| w.starts_with(b"\""))
        .count();
    c.count("manifests parsed", n);
    c.count("quoted words", quoted as u64);
    c.count("volumes compared", n * m.vols.len() as u64);
    c.max("volumes in a manifest", m.vols.len() as u64);
    if quoted > 0 && !m.vols.is_empty() {
        c.distinct(hash(&data));
    }
    c.sample(|| esc(&data));
    Ok(())
}

#[derive(Debug)]
enum Want {
    Keyword(&'static str),
    Eof,
    Path,
    HashType,
    Hash,
    Int,
    Utf8,
    Order(usize),
}

fn matches_err(e: &ParseError, w: &Want) -> bool {
    match (e, w) {
        (ParseError::MissingKeyword(k), Want::Keyword(x)) => k == x,
        (ParseError::Io(e), Want::Eof) => e.kind() == io::ErrorKind::UnexpectedEof,
        (ParseError::MissingPath, Want::Path) => true,
        (ParseError::MissingHashType, Want::HashType) => true,
        (ParseError::MissingHash, Want::Hash) => true,
        (ParseError::ParseInt(_), Want::Int) => true,
        (ParseError::Utf8(_), Want::Utf8) => true,
        (ParseError::OutOfOrderVolume(n), Want::Order(x)) => n == x,
        _ => false,
    }
}

const KEYS: [&str; 6] = ["Hostname", "Localdir", "Volume", "StartingPath", "EndingPath", "Hash"];

fn key_of(i: usize) -> &'static str {
    if i < 2 {
        KEYS[i]
    } else {
        KEYS[2 + (i - 2) % 4]
    }
}

/// Whether a manifest cut before line `i` is well formed.
fn complete(i: usize) -> bool {
    i >= 2 && (i - 2) % 4 == 0
}

fn p10(c: &mut Ctx) -> R {
    let m = {
        let r = &mut c.rng;
        let mut m = manif::random_man(r, 5);
        if m.vols.is_empty() || m.host.is_empty() {
            m = manif::random_man(r, 5);
        }
        m
    };
    let lines = manif::lines(&m);
    let st = Style::random(&mut c.rng);
    c.note(|| format!("{:?}", m));

    // 1. cuts between lines
    for cut in 0..lines.len() {
        if lines.len() > 400 && cut + 12 < lines.len() && !c.rng.chance(100, lines.len() as u64) {
            continue;
        }
        let data = manif::render(&lines[..cut], &st, &mut c.rng);
        let got = parse(&data);
        c.count("cuts between lines", 1);
        if complete(cut) {
            let mut short = m.clone();
            short.vols.truncate((cut - 2) / 4);
            match got {
                Ok(g) => manif::compare(&g, &short).map_err(|e| format!("cut before line {}: {}", cut, e))?,
                Err(e) => return Err(format!("a shorter manifest ({} lines) is rejected: {:?}", cut, e)),
            }
        } else {
            expect(c, &data, got, Want::Eof, &format!("cut before line {}", cut))?;
        }
    }

    // 2. one defect of each kind, at random places
    for kind in 0..12 {
        let r = &mut c.rng;
        let mut l = lines.clone();
        let nv = m.vols.len();
        let vol = if nv > 0 { r.usize(nv) } else { 0 };
        let base = 2 + 4 * vol;
        let want;
        let what;
        match kind {
            0 => {
                // a misspelt keyword
                let i = r.usize(l.len());
                let k = key_of(i);
                let other = match r.special_text(2).and_then(|t| String::from_utf8(t).ok()) {
                    Some(t) if !t.is_empty() && t.bytes().all(|b| b > b' ' && b != b'"') => t,
                    _ => (*r.pick(&[
                        "Hostname", "Localdir", "Volume", "StartingPath", "EndingPath", "Hash", "Filelist", "Files",
                        "Version", "Size", "SHA1", "Host", "Path", "Signature", "Volumes", "#", "-", "\u{e9}",
                    ]))
                    .to_owned(),
                };
                let bad: String = match r.below(9) {
                    6 | 7 | 8 if other != k => other,
                    0 => k.to_lowercase(),
                    1 => k[..k.len() - 1].to_owned(),
                    2 => format!("{}x", k),
                    3 => format!("{}:", k),
                    4 => k.to_uppercase(),
                    _ => format!("x{}", k),
                };
                l[i][0] = bad.into_bytes();
                want = Want::Keyword(k);
                what = format!("misspelt keyword {} at line {}", esc(&l[i][0]), i);
            }
            1 => {
                // a missing keyword
                let i = r.usize(l.len());
                if l[i].len() < 2 || l[i][1] == key_of(i).as_bytes() {
                    continue;
                }
                l[i].remove(0);
                if std::str::from_utf8(&l[i][0]).is_err() || l[i][0].is_empty() {
                    continue;
                }
                want = Want::Keyword(key_of(i));
                what = format!("no keyword at line {}", i);
            }
            2 => {
                // a missing line
                let i = r.usize(l.len());
                l.remove(i);
                want = if i < l.len() {
                    Want::Keyword(key_of(i))
                } else if complete(i) {
                    continue;
                } else {
                    Want::Eof
                };
                what = format!("line {} is missing", i);
            }
            3 | 4 if nv > 0 => {
                let i = base + if kind == 3 { 1 } else { 2 };
                l[i].truncate(1);
                want = Want::Path;
                what = format!("no path at line {}", i);
            }
            5 if nv > 0 => {
                l[base + 3].truncate(1);
                want = Want::HashType;
                what = "no hash type".to_owned();
            }
            6 if nv > 0 => {
                l[base + 3].truncate(2);
                want = Want::Hash;
                what = "no hash".to_owned();
            }
            7 if nv > 0 => {
                let bad = *r.pick(&["x:", "1a:", "-1:", "1.0:", ":", "0x1:", "99999999999999999999999:", "one", "1::"]);
                l[base][1] = bad.as_bytes().to_vec();
                if r.chance(1, 6) {
                    l[base].truncate(1);
                }
                want = Want::Int;
                what = format!("volume number {:?}", bad);
            }
            8 if nv > 0 => {
                let i = base + 1 + r.usize(2);
                l[i].truncate(2);
                let bad = *r.pick(&["x", "1a", "-1", "1.5", "0x10", "99999999999999999999999", "12:"]);
                l[i].push(bad.as_bytes().to_vec());
                want = Want::Int;
                what = format!("block number {:?} at line {}", bad, i);
            }
            9 => {
                let mut h = b"ab".to_vec();
                h.insert(r.usize(3), *r.pick(&[0xffu8, 0x80, 0xc3]));
                l[0] = vec![b"Hostname".to_vec(), h];
                want = Want::Utf8;
                what = "host name that is not UTF-8".to_owned();
            }
            10 if nv > 0 => {
                // wrong numbering
                let n = match r.below(5) {
                    0 => 0,
                    1 => vol + 2,
                    2 => vol + 1 + 1 + r.usize(1000),
                    3 if vol > 0 => vol,
                    _ => usize::MAX,
                };
                l[base][1] = format!("{}:", n).into_bytes();
                want = Want::Order(n);
                what = format!("volume {} numbered {}", vol + 1, n);
            }
            11 if nv > 1 => {
                // two volumes exchanged, or one dropped or repeated
                let mut blocks: Vec<Vec<Vec<Vec<u8>>>> = l[2..].chunks(4).map(|x| x.to_vec()).collect();
                let v = r.usize(nv - 1);
                let bad = match r.below(3) {
                    0 => {
                        blocks.swap(v, v + 1);
                        v + 2
                    }
                    1 => {
                        blocks.remove(v);
                        v + 2
                    }
                    _ => {
                        let x = blocks[v].clone();
                        blocks.insert(v, x);
                        v + 1
                    }
                };
                l.truncate(2);
                l.extend(blocks.into_iter().flat_map(|b| b));
                want = Want::Order(bad);
                what = format!("volumes out of order around {}", v + 1);
            }
            _ => continue,
        }
        let data = manif::render(&l, &st, r);
        let got = parse(&data);
        expect(c, &data, got, want, &what)?;
    }

    // 3. an I/O error at every read
    let data = manif::render(&lines, &st, &mut c.rng);
    let chunk = 1 + c.rng.usize(60);
    let chunk = chunk.max(data.len() / 200);
    let nreads = (data.len() + chunk - 1) / chunk + 1;
    for at in 0..nreads as u64 {
        let kind = crate::be::kind(&mut c.rng);
        let mut rd = BufReader::with_capacity(
            chunk,
            Slow {
                data: &data,
                n: chunk,
                reads: 0,
                fail_at: Some((at, kind, "injected failure")),
                interrupt: false,
            },
        );
        c.count("I/O errors injected", 1);
        match Manifest::parse(&mut rd) {
            Err(ParseError::Io(e)) if e.kind() == kind && e.to_string().contains("injected failure") => (),
            other => {
                return Err(format!(
                    "I/O error {:?} at read {} of {} gives {:?}",
                    kind,
                    at,
                    nreads,
                    other.map(|m| m.last_volume_index())
                ))
            }
        }
    }

    // 4. random damage: success only with all the volumes that are there
    for _ in 0..6 {
        let r = &mut c.rng;
        let mut d = data.clone();
        for _ in 0..1 + r.usize(3) {
            damage(&mut d, r);
        }
        let vols = d
            .split(|b| *b == b'\n')
            .filter(|l| {
                let l = if l.ends_with(b"\r") { &l[..l.len() - 1] } else { l };
                l.split(|b| *b == b' ').find(|w| !w.is_empty()) == Some(&b"Volume"[..])
            })
            .count();
        match parse(&d) {
            Ok(g) => {
                ensure!(
                    g.last_volume_index() == vols,
                    "a damaged manifest with {} Volume lines is parsed as {} volumes: {:?}",
                    vols,
                    g.last_volume_index(),
                    esc(&d)
                );
                c.count("damaged manifests accepted with all their volumes", 1);
            }
            Err(_) => c.count("damaged manifests rejected", 1),
        }
    }
    c.sample(|| format!("12 kinds of defects, {} cuts and {} I/O errors on: {}", lines.len(), nreads, esc(&data)));
    Ok(())
}

fn damage(d: &mut Vec<u8>, r: &mut Rng) {
    if d.is_empty() {
        return;
    }
    let i = r.usize(d.len());
    match r.below(7) {
        0 => d[i] ^= 1 << r.below(8),
        1 => {
            d.remove(i);
        }
        2 => d.insert(i, *r.pick(b"\n\r \"\\x\x00\xff:1")),
        3 => d.truncate(i),
        4 => {
            let j = r.usize(d.len());
            let (a, b) = (i.min(j), i.max(j));
            d.drain(a..b.min(a + 40));
        }
        5 => {
            let j = (i + r.usize(80)).min(d.len());
            let x = d[i..j].to_vec();
            d.extend(x);
        }
        _ => d.extend(b"\n\nVolume 1:\n"),
    }
}

fn expect(c: &mut Ctx, data: &[u8], got: Result<Manifest, ParseError>, w: Want, what: &str) -> R {
    match got {
        Ok(g) => Err(format!(
            "{}: accepted with {} volumes: {:?}",
            what,
            g.last_volume_index(),
            esc(data)
        )),
        Err(ref e) if matches_err(e, &w) => {
            ensure!(!e.to_string().is_empty(), "{}: the error {:?} has no text", what, e);
            c.count("defects that must be rejected", 1);
            c.distinct(hash(data));
            Ok(())
        }
        Err(e) => Err(format!("{}: error {:?}, expected {:?}: {:?}", what, e, w, esc(data))),
    }
}

fn norm(p: &[u8]) -> &[u8] {
    if p == b"." {
        b""
    } else {
        p
    }
}

/// Lookups among more volumes than sixteen bits can count. Path `i` is in the volumes from `first[i]`
/// to `last[i]`.
fn p11_vast(c: &mut Ctx) -> R {
    let mut rng = c.rng.clone();
    let r = &mut rng;
    let total = 65_530 + r.usize(3000);
    let name = |i: usize| format!("d{:03}/f{:05}", i / 700, i).into_bytes();
    let (mut first, mut last, mut vols): (Vec<usize>, Vec<usize>, Vec<manif::MVol>) = (vec![], vec![], vec![]);
    while vols.len() < total {
        let i = first.len();
        // a path alone in some volumes, sharing the last of them with the next paths or not
        let shared = i > 0 && r.chance(1, 4);
        let from = if shared { vols.len() } else { vols.len() + 1 };
        if shared {
            vols.last_mut().unwrap().end = name(i);
        }
        let more = if shared { r.usize(3) } else { 1 + r.usize(3) };
        for _ in 0..more {
            vols.push(manif::MVol {
                start: name(i),
                sblock: None,
                end: name(i),
                eblock: None,
                htype: "SHA1".into(),
                hash: vec![1, 2],
            });
        }
        first.push(from);
        last.push(vols.len());
    }
    let m = Man {
        host: "h".into(),
        dir: b"/".to_vec(),
        vols,
    };
    let n = m.vols.len();
    c.note(|| format!("{} volumes", n));
    let data = manif::write(&m, &Style::plain(), r);
    let parsed = parse(&data).map_err(|e| format!("{} volumes: rejected: {:?}", n, e))?;
    ensure!(parsed.last_volume_index() == n, "{} volumes of {}", parsed.last_volume_index(), n);
    for i in 0..first.len() {
        if r.chance(9, 10) && (first[i] < 65_530 || first[i] > 65_540) {
            continue;
        }
        for (q, want) in [(name(i), Some((first[i], last[i]))), ([name(i), b"/x".to_vec()].concat(), None)] {
            let got = (parsed.first_volume_of_path(&q), parsed.last_volume_of_path(&q));
            // (what would be inside a path is in no volume, unless a volume goes on to the next path)
            let next = i + 1 < first.len() && first[i + 1] == last[i];
            let want = match want {
                None if next => Some((last[i], last[i])),
                w => w,
            };
            ensure!(
                got == (want.map(|w| w.0), want.map(|w| w.1)),
                "path {} of {} volumes: {:?}, expected {:?}",
                esc(&q),
                n,
                got,
                want
            );
            c.count("lookups compared", 1);
            if want.map_or(false, |w| w.0 != w.1) {
                c.count("paths in several volumes", 1);
            }
        }
    }
    c.max("volumes in a manifest", n as u64);
    c.distinct(hash(&data));
    Ok(())
}

fn p11(c: &mut Ctx) -> R {
    if vast(c, 4) {
        return p11_vast(c);
    }
    let r = &mut c.rng;
    // a universe of paths
    let mut cfg = world::Cfg::normal();
    cfg.ops = 25;
    cfg.max_nodes = 60;
    let h = world::history(r, 1, 1_500_000_000, &cfg);
    let mut all: Vec<Vec<u8>> = h.expect[0].iter().map(|e| e.path.clone()).collect();
    let mut paths: Vec<Vec<u8>> = Vec::new();
    // only part of the universe is in the manifest, so that some paths are in no volume
    let keep = *r.pick(&[2u64, 5, 100]);
    for p in &all {
        if r.below(keep) > 0 || keep == 2 && r.bool() {
            paths.push(p.clone());
        }
    }
    let mut vols = Vec::new();
    if r.chance(1, 40) {
        // many volumes
        for _ in 0..60 {
            vols.extend(manif::volumes_over(&paths, r));
            vols.sort_by(|a, b| (key(&a.start), key(&a.end)).cmp(&(key(&b.start), key(&b.end))));
        }
        // keep a sequence in backup order
        let mut seq: Vec<manif::MVol> = Vec::new();
        for v in vols {
            if seq.last().map_or(true, |l| key(&l.end) <= key(&v.start)) && key(&v.start) <= key(&v.end) {
                seq.push(v);
            }
        }
        vols = seq;
    } else {
        vols = manif::volumes_over(&paths, r);
        // sometimes the middle of the backup is one big file
        if r.chance(1, 4) && !vols.is_empty() {
            let k = r.usize(vols.len());
            let p = vols[k].end.clone();
            let n = 1 + r.usize(8);
            for i in 0..n {
                let mut v = vols[k].clone();
                v.start = p.clone();
                v.end = p.clone();
                if r.bool() {
                    v.sblock = Some(i as u64);
                    v.eblock = Some(i as u64);
                }
                vols.insert(k + 1, v);
            }
        }
    }
    // gaps
    if r.chance(1, 3) && vols.len() > 2 {
        let k = r.usize(vols.len());
        vols.remove(k);
    }
    let dot = r.bool();
    for v in &mut vols {
        for p in [&mut v.start, &mut v.end] {
            if p.is_empty() && dot {
                *p = b".".to_vec();
            }
        }
    }
    let m = Man {
        host: "h".into(),
        dir: b"/".to_vec(),
        vols,
    };
    let data = manif::write(&m, &Style::plain(), r);
    c.note(|| esc(&data));
    let parsed = parse(&data).map_err(|e| format!("rejected: {:?}: {:?}", e, esc(&data)))?;
    let ranges: Vec<_> = m
        .vols
        .iter()
        .map(|v| (key(norm(&v.start)), key(norm(&v.end))))
        .collect();
    for w in ranges.windows(2) {
        if w[0].1 > w[1].0 || w[0].0 > w[0].1 {
            crate::hbug!("volumes out of order");
        }
    }
    // queries
    let r = &mut c.rng;
    for p in all.clone() {
        let mut q = p.clone();
        q.push(*r.pick(b"\x01 -.0a\xff"));
        all.push(q);
        let mut q = p.clone();
        if !q.is_empty() {
            q.push(b'/');
        }
        q.extend(world::component(r, false));
        all.push(q);
        if p.len() > 1 {
            let mut q = p.clone();
            q.truncate(1 + r.usize(p.len() - 1));
            if !q.ends_with(b"/") {
                all.push(q);
            }
        }
    }
    all.push(b"".to_vec());
    all.push(b".".to_vec());
    all.push(vec![0xff; 3]);
    all.push(vec![1]);
    let (mut multi, mut none, mut n) = (0, 0, 0);
    for p in &all {
        let k = key(norm(p));
        let hits: Vec<usize> = ranges
            .iter()
            .enumerate()
            .filter(|(_, (a, b))| *a <= k && k <= *b)
            .map(|(i, _)| i + 1)
            .collect();
        let (f, l) = (parsed.first_volume_of_path(p), parsed.last_volume_of_path(p));
        ensure!(
            f == hits.first().cloned() && l == hits.last().cloned(),
            "path {}: first volume {:?}, last volume {:?}, but the volumes holding it are {:?} in {}",
            esc(p),
            f,
            l,
            hits,
            crate::util::clip(&esc(&data), 3000)
        );
        n += 1;
        if hits.len() > 1 {
            multi += 1;
        }
        if hits.is_empty() {
            none += 1;
        }
    }
    c.count("lookups compared", n);
    c.count("paths in several volumes", multi);
    c.count("paths in no volume", none);
    c.max("volumes in a manifest", m.vols.len() as u64);
    if multi > 0 {
        let mut f = Fnv::new();
        f.add(&data);
        c.distinct(f.0);
    }
    c.sample(|| format!("{} lookups in {}", n, crate::util::clip(&esc(&data), 600)));
    Ok(())
}
