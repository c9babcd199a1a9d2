//! P12: whatever the input, a value or an error, in bounded time and memory.
//!
//! The monitors: the overflow checks, bounds checks and debug assertions of this build, the heap
//! meter, the CPU clock of the thread, and the supervisor (death of the process, endless loops).

use crate::be::Mem;
use crate::bworld::{self, WCfg};
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::hooks::{self, Meter};
use crate::manif::{self, Style};
use crate::names;
use crate::sup::Prop;
use crate::tarw::{self, Enc, Eof, Kind, RawHeader, Rec};
use crate::util::{clip, esc, hash, stamp, Fnv, Rng};
use crate::world::{self, Cfg};
use ruplicity::collections::Collections;
use ruplicity::manifest::Manifest;
use ruplicity::signatures::{self, Chain, EntryType};
use ruplicity::timefmt::{self, TimeDisplay};
use ruplicity::Backup;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fmt::{self, Write};
use std::io::{BufReader, Read};
use std::os::unix::ffi::OsStringExt;
use std::sync::Arc;
use time::Timespec;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P12",
        f: p12,
        quick: 40_000,
        thorough: 110_000,
        level: "exploration",
        rule: "a case is one hostile input (names, time stamps, instants, a manifest, an archive, a whole backup, a large input of one of 35 shapes, or a small and an eight times larger input of one shape), random, mutated from a valid one or valid in form with extreme fields; everything reachable from it is opened, walked, listed and displayed, under overflow checks, a heap meter and a CPU meter; distinct by its bytes, non-trivial if it is neither empty nor the unmodified valid input",
        need: &[
            ("archives read", 6_000),
            ("archives refused", 1_500),
            ("entries walked", 100_000),
            ("extreme header fields", 10_000),
            ("extension members", 3_000),
            ("manifests accepted", 400),
            ("manifests refused", 2_500),
            ("volumes walked", 3_000),
            ("names given", 60_000),
            ("sets walked", 15_000),
            ("texts given as time stamps", 50_000),
            ("instants displayed", 30_000),
            ("whole backups walked", 2_500),
            ("large inputs", 250),
            ("growths measured", 250),
            ("bytes displayed", 5_000_000),
        ],
        assumptions: &[
            "CPU is allowed 0.5 s plus 0.3 us for each byte of input times the number of walks over it; heap 3 MB plus 64 bytes for each byte of uncompressed input (the names and contents of the files, not their number of reads)",
            "an input eight times as large may cost 28 times as much CPU (the best of three runs), not sixty-four times; the number of sets and chains, whose work is quadratic in this library, is kept small enough for that",
            "a backend that hands out its bytes immediately",
        ],
    }]
}

/// Swallows text without keeping it.
struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

/// What a walk did.
#[derive(Default)]
pub(super) struct Seen {
    pub shown: u64,
    pub entries: u64,
    pub sets: u64,
    pub volumes: u64,
    pub walks: u64,
    pub snaps: u64,
    pub good: u64,
    pub bad: u64,
    pub man_good: u64,
    pub man_bad: u64,
}

const MAX_ENTRIES: usize = 3_000_000;

pub(super) fn show<D: fmt::Display>(d: D, s: &mut Seen) {
    let mut k = Sink(0);
    // a formatter may fail only if its output does
    if write!(k, "{}", d).is_err() {
        panic!("Display returned an error by itself");
    }
    s.shown += k.0;
}

fn debug<D: fmt::Debug>(d: D, s: &mut Seen) {
    let mut k = Sink(0);
    let _ = write!(k, "{:?}", d);
    s.shown += k.0;
}

fn walk_time(t: Timespec, s: &mut Seen) {
    show(t.into_local_display(), s);
    show(t.into_utc_display(), s);
}

pub(super) fn walk_collections(c: &Collections, s: &mut Seen) {
    show(c, s);
    s.walks += 1;
    let _ = c.num_snapshots();
    for ch in c.backup_chains() {
        show(ch, s);
        walk_time(ch.start_time(), s);
        walk_time(ch.end_time(), s);
        for b in std::iter::once(ch.full_set()).chain(ch.inc_sets()) {
            s.sets += 1;
            show(b, s);
            let _ = (b.is_complete(), b.is_partial(), b.is_compressed(), b.is_encrypted());
            let _ = (b.is_full(), b.is_incremental(), b.manifest_path().len());
            let n = b.num_volumes();
            for v in [0usize, 1, n, n.wrapping_add(1), 1 << 31, 1 << 32, usize::MAX - 1, usize::MAX] {
                if let Some(p) = b.volume_path(v) {
                    s.volumes += p.len().min(1) as u64;
                }
            }
            walk_time(b.start_time(), s);
            walk_time(b.end_time(), s);
        }
    }
    for ch in c.signature_chains() {
        show(ch, s);
        walk_time(ch.start_time(), s);
        walk_time(ch.end_time(), s);
        for f in std::iter::once(ch.full_signature()).chain(ch.inc_signatures()) {
            debug(f, s);
        }
    }
}

pub(super) fn walk_files(it: signatures::SnapshotEntries, s: &mut Seen, deep: bool) -> R {
    s.walks += 1;
    let mut n = 0usize;
    for e in it {
        n += 1;
        ensure!(n <= MAX_ENTRIES, "a listing does not end: {} entries", n);
        let _ = (e.path().map(|p| p.as_os_str().len()), e.path_bytes().len());
        let _ = (e.userid(), e.groupid(), e.mode(), e.username(), e.groupname());
        let _ = (e.size_hint(), e.linked_path().map(|p| p.as_os_str().len()));
        if deep {
            show(&e, s);
            show(e.entry_type(), s);
            walk_time(e.mtime(), s);
        }
    }
    s.entries += n as u64;
    Ok(())
}

fn walk_chain(c: &Chain, s: &mut Seen, deep: bool) -> R {
    let n = c.snapshots().len();
    ensure!(n <= 1_000_000, "a chain of {} snapshots", n);
    for (i, sn) in c.snapshots().enumerate() {
        if i > 4 && i + 2 < n {
            continue;
        }
        walk_files(sn.files(), s, deep)?;
        if deep {
            show(&sn, s);
            show(sn.files().into_display(), s);
            s.walks += 1;
        }
    }
    Ok(())
}

fn walk_manifest(m: &Manifest, probes: &[Vec<u8>], s: &mut Seen) -> R {
    s.walks += 1;
    let _ = (m.hostname().len(), m.local_dir().map(|p| p.as_os_str().len()));
    let n = m.last_volume_index();
    for i in [0usize, 1, n, n.wrapping_add(1), usize::MAX] {
        let _ = m.volume(i).is_some();
    }
    let mut qs: Vec<&[u8]> = probes.iter().map(|p| &p[..]).collect();
    for i in 1..=n {
        let v = match m.volume(i) {
            Some(v) => v,
            None => return Err(format!("no volume {} of {}", i, n)),
        };
        s.volumes += 1;
        let _ = (v.start_path().is_some(), v.end_path().is_some(), v.start_block(), v.end_block());
        let _ = (v.hash_type().len(), v.hash().len());
        if i < 20 || i > n - 5 {
            qs.push(v.start_path_bytes());
            qs.push(v.end_path_bytes());
        }
    }
    for q in qs {
        for v in [m.first_volume_of_path(q), m.last_volume_of_path(q)] {
            if let Some(v) = v {
                ensure!(m.volume(v).is_some(), "volume {} reported for a path does not exist", v);
            }
        }
    }
    Ok(())
}

pub(super) fn walk_backup<B: ruplicity::Backend>(b: &Backup<B>, probes: &[Vec<u8>], s: &mut Seen, deep: bool) -> R {
    let ss = b.snapshots().map_err(|e| format!("snapshots(): {}", e))?;
    walk_collections(ss.as_collections(), s);
    for (i, sn) in ss.into_iter().enumerate() {
        s.snaps += 1;
        walk_time(sn.time(), s);
        let _ = (sn.is_full(), sn.is_incremental(), sn.num_volumes());
        if i > 12 && !deep {
            continue;
        }
        match sn.entries() {
            Ok(e) => {
                s.good += 1;
                walk_files(e.as_signature(), s, deep)?;
                show(&e, s);
                s.walks += 1;
            }
            Err(e) => {
                s.bad += 1;
                show(e, s);
            }
        }
        match sn.manifest() {
            Ok(m) => {
                s.man_good += 1;
                walk_manifest(&m, probes, s)?;
            }
            Err(e) => {
                s.man_bad += 1;
                show(e, s);
            }
        };
    }
    Ok(())
}

/// Runs a walk under the meters. `size` is the uncompressed input.
fn metered<F: FnOnce(&mut Seen) -> R>(c: &mut Ctx, what: &str, size: usize, f: F) -> R {
    let mut s = Seen::default();
    let m = Meter::start();
    let t0 = hooks::cpu_ns();
    let r = f(&mut s);
    let cpu = hooks::cpu_ns() - t0;
    let peak = m.peak();
    let res = r.map_err(|e| format!("{}: {}", what, e));
    c.count("bytes displayed", s.shown);
    c.count("entries walked", s.entries);
    c.count("sets walked", s.sets);
    c.count("volumes walked", s.volumes);
    c.count("archives read", s.good);
    c.count("archives refused", s.bad);
    c.count("manifests accepted", s.man_good);
    c.count("manifests refused", s.man_bad);
    res?;
    let heap_max = 3_000_000 + 64 * size;
    ensure!(
        peak <= heap_max,
        "{}: {} bytes of heap for {} bytes of input (allowed {})",
        what,
        peak,
        size,
        heap_max
    );
    let cpu_max = 500_000_000u64 + 300 * size as u64 * (s.walks + 1);
    ensure!(
        cpu <= cpu_max || !hooks::timed(),
        "{}: {} ms of CPU for {} bytes of input and {} walks (allowed {} ms)",
        what,
        cpu / 1_000_000,
        size,
        s.walks,
        cpu_max / 1_000_000
    );
    c.max("heap peak in 1/1000 of what is allowed", (peak as u64 * 1000) / heap_max as u64);
    c.max("CPU in 1/1000 of what is allowed", cpu * 1000 / cpu_max);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// hostile bytes

const NUMS: [&str; 40] = [
    "0", "00", "1", "-1", "+1", "7", "8", "9", "127", "128", "255", "256", "65535", "65536", "2147483647",
    "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456",
    "99999999999999999999999999999999999999999", "-9223372036854775808", "-9223372036854775809", "1e9", "0x10",
    " 5", "5 ", "", "NaN", "1.5", "\u{0663}", "7777777", "77777777777", "777777777777", "0000000", "-0", "\0",
];

fn interesting(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0..=3 => r.pick(&NUMS).as_bytes().to_vec(),
        4 => r.wild().to_string().into_bytes(),
        5 => (r.wild() as i64).to_string().into_bytes(),
        6 => format!("{:o}", r.wild()).into_bytes(),
        _ => {
            let n = r.usize(6);
            r.bytes(n)
        }
    }
}

/// One to several edits of any bytes.
fn mutate(d: &mut Vec<u8>, r: &mut Rng, max: usize) {
    let n = 1 + r.usize(max);
    for _ in 0..n {
        if d.is_empty() {
            let k = r.usize(40);
            *d = r.bytes(k);
            continue;
        }
        let at = r.usize(d.len());
        match r.below(12) {
            0 | 1 => d[at] ^= 1 << r.below(8),
            2 => d[at] = *r.pick(&[0u8, 0xff, b' ', b'\n', b'\r', b'\\', b'"', b'/', b'.', 0x7f, 0x80, b'0', b'9', b':']),
            3 => d.truncate(at),
            4 => {
                let v = interesting(r);
                for (i, b) in v.iter().enumerate() {
                    if at + i < d.len() {
                        d[at + i] = *b;
                    }
                }
            }
            5 => {
                let v = interesting(r);
                let tail = d.split_off(at);
                d.extend(v);
                d.extend(tail);
            }
            6 => {
                let k = 1 + r.usize(d.len().min(600));
                let end = (at + k).min(d.len());
                d.drain(at..end);
            }
            7 => {
                let k = 1 + r.usize(600);
                let end = (at + k).min(d.len());
                let chunk = d[at..end].to_vec();
                let tail = d.split_off(end);
                d.extend(chunk);
                d.extend(tail);
            }
            8 => {
                let k = 1 + r.usize(64);
                let end = (at + k).min(d.len());
                let v = *r.pick(&[0u8, 0xff, b' ', b'7']);
                for b in &mut d[at..end] {
                    *b = v;
                }
            }
            9 => {
                let to = r.usize(d.len());
                let k = 1 + r.usize(512);
                for i in 0..k {
                    if at + i < d.len() && to + i < d.len() {
                        d[to + i] = d[at + i];
                    }
                }
            }
            10 => {
                let to = r.usize(d.len());
                d.swap(at, to);
            }
            _ => {
                let k = r.usize(80);
                let v = r.bytes(k);
                let tail = d.split_off(at);
                d.extend(v);
                d.extend(tail);
            }
        }
    }
}

const FIELDS: [(usize, usize); 14] = [
    (0, 100),
    (100, 8),
    (108, 8),
    (116, 8),
    (124, 12),
    (136, 12),
    (156, 1),
    (157, 100),
    (257, 8),
    (265, 32),
    (297, 32),
    (329, 8),
    (337, 8),
    (345, 155),
];
const TYPES: &[u8] = b"01234567\0LKxgSVMDNAXI/ \xff";

/// Puts an extreme value in a field of a header, and fixes its checksum.
fn extreme_field(h: &mut [u8], r: &mut Rng) {
    let (at, len) = *r.pick(&FIELDS);
    let f = &mut h[at..at + len];
    match r.below(12) {
        0 => f.fill(0),
        1 => f.fill(b'7'),
        2 => f.fill(b' '),
        3 => f.fill(0xff),
        4 => {
            f.fill(0xff);
            f[0] = 0x80;
        }
        5 => {
            f.fill(0);
            f[0] = 0x80 | (r.next() as u8 & 0x7f);
            let v = r.wild().to_be_bytes();
            let n = f.len();
            if n >= 8 {
                f[n - 8..].copy_from_slice(&v);
            }
        }
        6 => {
            let b = r.bytes(len);
            f.copy_from_slice(&b);
        }
        7 => {
            f.fill(b'7');
            f[len - 1] = 0;
        }
        8 => {
            // a plausible file name
            let v: &[u8] = *r.pick(&[
                &b"signature/"[..],
                b"signature",
                b"snapshot//",
                b"deleted/.",
                b"signature/../../etc/passwd",
                b"signature//a//b/",
                b"/signature/x",
                b"./signature/x",
                b"signature/./x",
                b"snapshot/\xff\xfe",
                b"signature/a\nb",
                b"sign",
                b"/",
            ]);
            let n = v.len().min(len);
            f.fill(0);
            f[..n].copy_from_slice(&v[..n]);
        }
        _ => {
            let v = interesting(r);
            let n = v.len().min(len);
            f.fill(0);
            f[..n].copy_from_slice(&v[..n]);
        }
    }
    if at == 156 {
        h[156] = *r.pick(TYPES);
    }
    tarw::checksum(h);
}

fn hostile_pax(r: &mut Rng) -> Vec<u8> {
    let keys = [
        "path", "linkpath", "size", "uid", "gid", "mtime", "atime", "uname", "gname", "GNU.sparse.major",
        "GNU.sparse.minor", "GNU.sparse.size", "GNU.sparse.realsize", "GNU.sparse.map", "GNU.sparse.name",
        "GNU.sparse.numblocks", "SCHILY.xattr.user.x", "hdrcharset", "", "=",
    ];
    let mut v = Vec::new();
    for _ in 0..1 + r.usize(4) {
        let key = *r.pick(&keys);
        let val = match r.below(4) {
            0 => interesting(r),
            1 => b"signature/pax/name".to_vec(),
            2 => {
                let n = r.usize(300);
                let mut x = b"signature/".to_vec();
                x.extend(r.bytes(n));
                x
            }
            _ => r.pick(&NUMS).as_bytes().to_vec(),
        };
        if r.chance(3, 4) {
            v.extend(tarw::pax_record(key, &val));
        } else {
            // with a wrong length
            v.extend(interesting(r));
            v.extend(b" ");
            v.extend(key.as_bytes());
            v.extend(b"=");
            v.extend(val);
            v.extend(b"\n");
        }
    }
    if r.chance(1, 6) {
        mutate(&mut v, r, 3);
    }
    v
}

/// A member before a normal one: long names, PAX records, sparse maps with any content.
fn hostile_ext(out: &mut Vec<u8>, r: &mut Rng) {
    let typ = *r.pick(b"LLKKxxgSVMD");
    let data = match typ {
        b'x' | b'g' => hostile_pax(r),
        _ => {
            let n = *r.pick(&[0usize, 1, 99, 100, 101, 511, 512, 513, 3000]);
            let mut d = match r.below(3) {
                0 => b"signature/".to_vec(),
                1 => b"snapshot/".to_vec(),
                _ => vec![],
            };
            d.extend(r.bytes(n));
            if r.bool() {
                d.push(0);
            }
            d
        }
    };
    let at = out.len();
    tarw::ext_member(out, typ, b"././@LongLink", &data, r.bool());
    if r.chance(1, 3) {
        extreme_field(&mut out[at..at + 512], r);
    }
    if typ == b'S' && r.bool() {
        // numbers in the sparse map
        let h = &mut out[at..at + 512];
        for k in 0..4 {
            for (o, l) in [(386 + k * 24, 12), (398 + k * 24, 12)] {
                let v = interesting(r);
                let n = v.len().min(l);
                h[o..o + n].copy_from_slice(&v[..n]);
            }
        }
        h[482] = r.below(2) as u8;
        let v = interesting(r);
        let n = v.len().min(12);
        h[483..483 + n].copy_from_slice(&v[..n]);
        tarw::checksum(h);
    }
}

/// A body that looks like a signature, with any numbers in its head.
fn hostile_body(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![],
        1 => {
            let n = r.usize(40);
            r.bytes(n)
        }
        _ => {
            let magic = *r.pick(&[0x7273_0136u32, 0x7273_0136, 0x7273_0136, 0x7273_0137, 0, u32::MAX]);
            let block = if r.bool() { r.wild() as u32 } else { *r.pick(&[0, 1, 512, u32::MAX, 1 << 31]) };
            let strong = if r.bool() { r.wild() as u32 } else { *r.pick(&[0, 1, 8, 16, u32::MAX, u32::MAX - 3]) };
            let mut v = magic.to_be_bytes().to_vec();
            v.extend(block.to_be_bytes());
            v.extend(strong.to_be_bytes());
            let n = r.usize(80);
            v.extend(r.bytes(n));
            let cut = r.usize(v.len() + 1);
            if r.chance(1, 4) {
                v.truncate(cut);
            }
            v
        }
    }
}

fn small_history(r: &mut Rng, snaps: usize) -> Vec<Vec<Rec>> {
    let cfg = if r.bool() { Cfg::tame() } else { Cfg::normal() };
    if r.bool() {
        world::history(r, snaps, 1_400_000_000, &cfg).recs
    } else {
        world::wild_history(r, snaps, &cfg).recs
    }
}

/// A hostile archive. Gives the bytes and their uncompressed size.
fn hostile_archive(c: &mut Ctx, recs: Option<&[Rec]>) -> (Vec<u8>, bool, usize) {
    let r = &mut c.rng;
    let own;
    let recs = match recs {
        Some(x) => x,
        None => {
            own = small_history(r, 1);
            &own[0][..]
        }
    };
    let mut fields = 0;
    let mut exts = 0;
    let mut tar: Vec<u8> = Vec::new();
    let style = r.below(6);
    if style == 0 {
        let n = r.usize(4000);
        tar = r.bytes(n);
    } else {
        let enc = Enc::random(r);
        for rec in recs.iter().take(60) {
            if style >= 3 && r.chance(1, 5) {
                hostile_ext(&mut tar, r);
                exts += 1;
            }
            let rec = if r.chance(1, 4) && (rec.typ == b'0' || rec.kind == Kind::Sig) {
                Rec {
                    body: hostile_body(r),
                    ..rec.clone()
                }
            } else {
                rec.clone()
            };
            let sp = tarw::write_rec(&mut tar, &rec, &enc);
            if style >= 2 && r.chance(1, 4) {
                for _ in 0..1 + r.usize(2) {
                    extreme_field(&mut tar[sp.header..sp.header + 512], r);
                    fields += 1;
                }
            }
        }
        if style == 5 && r.chance(1, 2) {
            hostile_ext(&mut tar, r);
            exts += 1;
        }
        tarw::eof(&mut tar, *r.pick(&[Eof::None, Eof::One, Eof::Two, Eof::Record]));
        if style == 1 || (style == 4 && r.bool()) {
            mutate(&mut tar, r, 4);
        }
    }
    let comp = r.chance(1, 3);
    let mut size = tar.len();
    let out = if comp {
        let mut z = if r.bool() { tarw::gz(&tar, 6) } else { tarw::gz_multi(&tar, r) };
        if r.chance(1, 3) {
            mutate(&mut z, r, 3);
            size = inflated(&z).max(z.len());
        }
        z
    } else {
        tar
    };
    // a plain archive may be given as a compressed one, and the other way round
    let named = if r.chance(1, 12) { !comp } else { comp };
    if named != comp {
        size = size.max(out.len()).max(inflated(&out));
    }
    c.count("extreme header fields", fields);
    c.count("extension members", exts);
    (out, named, size)
}

/// How many bytes come out of a damaged gzip file.
fn inflated(z: &[u8]) -> usize {
    let mut d = flate2::read::MultiGzDecoder::new(z);
    let mut buf = [0u8; 8192];
    let mut n = 0;
    while let Ok(k) = d.read(&mut buf) {
        if k == 0 {
            break;
        }
        n += k;
    }
    n
}

fn hostile_manifest(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => {
            let n = r.usize(400);
            r.bytes(n)
        }
        1 => {
            // words of the format in any order
            let words = [
                "Hostname", "Localdir", "Volume", "1:", "2:", "StartingPath", "EndingPath", "Hash", "SHA1", "\"", "\\",
                "\\x", "\\x4", "\\xzz", "\\xff", "\"a b\"", "\n", "\n", "\r\n", "\r", " ", ".", "0", "-1",
                "99999999999999999999", "abcdef", "abc", "\"\\", "\u{e9}", "\0", "'", "''",
            ];
            let mut v = Vec::new();
            for _ in 0..r.usize(80) {
                v.extend(r.pick(&words).as_bytes());
                if r.bool() {
                    v.push(b' ');
                }
            }
            v
        }
        2 | 3 => {
            // well formed lines with extreme words
            let m = manif::random_man(r, 6);
            let mut ls = manif::lines(&m);
            for _ in 0..1 + r.usize(3) {
                let i = r.usize(ls.len());
                match r.below(5) {
                    0 => {
                        ls.remove(i);
                        if ls.is_empty() {
                            break;
                        }
                    }
                    1 => {
                        let l = ls[i].clone();
                        ls.insert(i, l);
                    }
                    2 => {
                        let w = interesting(r);
                        ls[i].push(w);
                    }
                    _ => {
                        let w = interesting(r);
                        if !ls[i].is_empty() {
                            let j = r.usize(ls[i].len());
                            ls[i][j] = w;
                        }
                    }
                }
            }
            let st = Style::random(r);
            manif::render(&ls, &st, r)
        }
        _ => {
            let m = manif::random_man(r, 6);
            let st = Style::random(r);
            let mut v = manif::write(&m, &st, r);
            mutate(&mut v, r, 4);
            v
        }
    }
}

fn hostile_stamp(r: &mut Rng) -> String {
    let t = r.range(-62_135_596_800, 253_402_300_799);
    let mut b = match r.below(4) {
        0 => stamp(t).into_bytes(),
        1 => stamp(t).to_lowercase().into_bytes(),
        2 => {
            // any digits
            let mut s = String::new();
            for i in 0..16 {
                s.push(match i {
                    8 => 't',
                    15 => 'z',
                    _ => (b'0' + r.below(10) as u8) as char,
                });
            }
            s.into_bytes()
        }
        _ => {
            let n = r.usize(24);
            r.bytes(n)
        }
    };
    if r.chance(2, 3) {
        mutate(&mut b, r, 2);
    }
    String::from_utf8_lossy(&b).into_owned()
}

fn hostile_name(r: &mut Rng, ids: &[names::Id]) -> Vec<u8> {
    match r.below(10) {
        0 => {
            let n = r.usize(60);
            r.bytes(n)
        }
        1 => names::foreign(r),
        2 | 3 => {
            let kinds = ["full", "inc", "full-signatures", "new-signatures", "", "signatures"];
            let tails = [
                "manifest", "manifest.part", "sigtar.gz", "sigtar.part", "vol1.difftar.gz", "vol0.difftar", "sigtar.gpg",
                "volX.difftar", "vol.difftar", "manifest.gpg", "difftar", "",
            ];
            let mut tail = r.pick(&tails).to_string();
            if r.chance(1, 2) {
                tail = format!("vol{}.difftar.gz", String::from_utf8_lossy(&interesting(r)));
            }
            let a = if r.chance(3, 4) { stamp(r.range(0, 4_000_000_000)) } else { hostile_stamp(r) };
            let b = if r.chance(3, 4) { stamp(r.range(0, 4_000_000_000)) } else { hostile_stamp(r) };
            let k = *r.pick(&kinds);
            let s = if r.bool() {
                format!("duplicity-{}.{}.{}", k, a, tail)
            } else {
                format!("duplicity-{}.{}.to.{}.{}", k, a, b, tail)
            };
            s.into_bytes()
        }
        4 => {
            // time going backwards, equal times, extreme years
            let id = match r.below(4) {
                0 => (true, 4_000_000_000, 0),
                1 => (true, 5, 5),
                2 => (false, -62_135_596_800, -62_135_596_800),
                _ => (true, -62_135_596_800, 253_402_300_799),
            };
            let part = *r.pick(&[names::Part::Man, names::Part::Sig, names::Part::Vol(u64::MAX), names::Part::Vol(0)]);
            names::make(id, part, false, "", names::Case::Upper, r).text.into_bytes()
        }
        _ => {
            let id = if ids.is_empty() { (false, 0, 0) } else { *r.pick(ids) };
            let part = match r.below(4) {
                0 => names::Part::Man,
                1 => names::Part::Sig,
                _ => names::Part::Vol(r.wild()),
            };
            let sfx = names::suffix(r, part);
            let partial = r.chance(1, 8);
            let partial = partial && !matches!(part, names::Part::Vol(_));
            let mut v = names::make(id, part, partial, sfx, names::Case::Mixed, r).text.into_bytes();
            if r.chance(1, 3) {
                mutate(&mut v, r, 2);
            }
            v
        }
    }
}

// ---------------------------------------------------------------------------------------------

const SIG: &str = "duplicity-full-signatures.20150101T000000Z.sigtar";
const VOL: &str = "duplicity-full.20150101T000000Z.vol1.difftar.gz";
const MAN: &str = "duplicity-full.20150101T000000Z.manifest";

fn single(archive: Vec<u8>, comp: bool, manifest: Option<Vec<u8>>) -> BTreeMap<Vec<u8>, Arc<Vec<u8>>> {
    let mut m = BTreeMap::new();
    let n = if comp { format!("{}.gz", SIG) } else { SIG.to_owned() };
    m.insert(n.into_bytes(), Arc::new(archive));
    m.insert(VOL.as_bytes().to_vec(), Arc::new(vec![]));
    if let Some(b) = manifest {
        m.insert(MAN.as_bytes().to_vec(), Arc::new(b));
    }
    m
}

fn p12(c: &mut Ctx) -> R {
    if c.idx % 119 == 7 {
        let k = c.idx / 119 % LARGE;
        return growth(c, k);
    }
    let kind = c.rng.below(100);
    if c.rng.chance(1, 3) {
        let z = *c.rng.pick(&["UTC", "Asia/Kathmandu", "America/St_Johns", "XXX-24:59:59", "", "garbage,,,", "A0B,J1,J365"]);
        hooks::set_tz(z);
    }
    match kind {
        0 => {
            let k = c.rng.below(LARGE);
            large(c, k)
        }
        1..=29 => archive(c),
        30..=49 => manifest(c),
        50..=64 => name_list(c),
        65..=74 => stamps(c),
        75..=84 => instants(c),
        _ => whole(c),
    }
}

/// One hostile input of a kind (for P25).
pub(super) fn hostile(c: &mut Ctx, kind: u64) -> R {
    match kind {
        0 => archive(c),
        1 => manifest(c),
        2 => name_list(c),
        3 => stamps(c),
        4 => instants(c),
        _ => whole(c),
    }
}

fn archive(c: &mut Ctx) -> R {
    let (data, comp, size) = hostile_archive(c, None);
    c.distinct(hash(&data));
    c.note(|| format!("archive ({}):\n{}", if comp { "as gzip" } else { "plain" }, hexdump(&data)));
    c.sample(|| format!("archive of {} bytes: {}", data.len(), clip(&esc(&data), 300)));
    let d2 = data.clone();
    let files = single(data, comp, None);
    let chunk = c.rng.chance(1, 8);
    metered(c, "archive", size, |s| {
        let be = Mem::new(&files);
        if chunk {
            be.with(|s| s.chunk = crate::be::Chunk::Random(700));
        }
        let b = bworld::open(be.clone())?;
        walk_backup(&b, &[], s, true)?;
        // the lower level interface
        let coll = b.snapshots().map_err(|e| e.to_string())?.as_collections();
        for ch in coll.signature_chains() {
            match Chain::from_sigchain(ch, &be) {
                Ok(ch) => walk_chain(&ch, s, true)?,
                Err(e) => show(e, s),
            }
        }
        Ok(())
    })
    .map_err(|e| format!("{} [archive of {} bytes, fnv {:x}]", e, d2.len(), hash(&d2)))
}

fn manifest(c: &mut Ctx) -> R {
    let data = hostile_manifest(&mut c.rng);
    let r = &mut c.rng;
    let probes: Vec<Vec<u8>> = (0..6)
        .map(|_| {
            if r.bool() {
                manif::any_path(r, false)
            } else {
                let n = r.usize(20);
                r.bytes(n)
            }
        })
        .collect();
    let cap = 1 + r.usize(200);
    c.distinct(hash(&data));
    c.note(|| format!("manifest: {}", esc(&data)));
    c.sample(|| format!("manifest: {}", clip(&esc(&data), 400)));
    let mut good = 0;
    let mut bad = 0;
    let res = metered(c, "manifest", data.len() + cap, |s| {
        match Manifest::parse(&mut BufReader::with_capacity(cap, &data[..])) {
            Ok(m) => {
                good += 1;
                debug(&m, s);
                walk_manifest(&m, &probes, s)?;
            }
            Err(e) => {
                bad += 1;
                show(&e, s);
                debug(&e, s);
                let _ = std::error::Error::source(&e).is_some();
            }
        }
        Ok(())
    });
    c.count("manifests accepted", good);
    c.count("manifests refused", bad);
    res
}

fn name_list(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let ids = names::random_ids(r, 6);
    let n = r.usize(24);
    let mut v: Vec<Vec<u8>> = (0..n).map(|_| hostile_name(r, &ids)).collect();
    if r.chance(1, 10) && !v.is_empty() {
        let d = v[0].clone();
        v.push(d);
    }
    let size: usize = v.iter().map(|x| x.len() + 1).sum();
    let mut f = Fnv::new();
    for x in &v {
        f.add(x);
    }
    c.distinct(f.0);
    c.count("names given", v.len() as u64);
    c.note(|| v.iter().map(|x| esc(x)).collect::<Vec<_>>().join("\n"));
    c.sample(|| clip(&v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(" "), 600));
    metered(c, "names", size, |s| {
        let os: Vec<OsString> = v.iter().map(|x| OsString::from_vec(x.clone())).collect();
        let coll = Collections::from_filenames(os);
        walk_collections(&coll, s);
        debug(&coll, s);
        // nothing can be read
        let be = Mem::with_names(&BTreeMap::new(), v.clone());
        let b = bworld::open(be)?;
        walk_backup(&b, &[], s, true)
    })
}

fn stamps(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let v: Vec<String> = (0..30).map(|_| hostile_stamp(r)).collect();
    let size: usize = v.iter().map(|x| x.len() + 1).sum();
    let mut f = Fnv::new();
    for x in &v {
        f.add(x.as_bytes());
    }
    c.distinct(f.0);
    c.count("texts given as time stamps", v.len() as u64);
    c.note(|| format!("{:?}", v));
    metered(c, "time stamps", size, |s| {
        for x in &v {
            if let Some(t) = timefmt::parse_time_str(x) {
                walk_time(t, s);
            }
        }
        Ok(())
    })
}

fn instants(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let now = match r.below(4) {
        0 => 0,
        1 => r.range(-4_000_000_000, 60_000_000_000),
        _ => 1_600_000_000,
    };
    let ts: Vec<(i64, i32)> = (0..40)
        .map(|_| {
            let s = match r.below(6) {
                0 => i64::MIN,
                1 => i64::MAX,
                2 => r.wild() as i64,
                3 => (r.wild() as i64).wrapping_neg(),
                4 => r.range(-70_000_000_000_000_000, 70_000_000_000_000_000),
                _ => r.range(-5_000_000_000, 300_000_000_000),
            };
            (s, *r.pick(&[0, 1, 999_999_999, 500_000_000]))
        })
        .collect();
    let bytes: Vec<u8> = (0..=255u8).collect();
    hooks::fake_now(Some(now));
    let mut f = Fnv::new();
    for t in &ts {
        f.num(t.0 as u64);
    }
    c.distinct(f.0);
    c.count("instants displayed", ts.len() as u64);
    c.note(|| format!("now {} instants {:?}", now, ts));
    metered(c, "instants", 16 * ts.len(), |s| {
        for (a, n) in &ts {
            walk_time(Timespec::new(*a, *n), s);
        }
        for b in &bytes {
            show(EntryType::new(*b), s);
        }
        Ok(())
    })
}

fn whole(c: &mut Ctx) -> R {
    let cfg = WCfg {
        chains: 2,
        snaps: 3,
        wild: true,
        ..WCfg::normal()
    };
    let w = bworld::build(&mut c.rng, &cfg);
    let mut files = w.files.clone();
    let mut sizes: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut names: Vec<Vec<u8>> = files.keys().cloned().collect();
    let hits = 1 + c.rng.usize(3);
    for _ in 0..hits {
        let k = c.rng.usize(names.len());
        let n = names[k].clone();
        let text = String::from_utf8_lossy(&n).to_lowercase();
        let old: Vec<u8> = match files.get(&n) {
            Some(d) => d.to_vec(),
            None => vec![],
        };
        let new = if c.rng.chance(1, 8) {
            // the content of another file
            let j = c.rng.usize(names.len());
            files.get(&names[j]).map_or(vec![], |d| d.to_vec())
        } else if text.contains("signatures") {
            let ids: Vec<_> = w.recs.keys().cloned().collect();
            let id = *c.rng.pick(&ids);
            let rr = w.recs[&id].clone();
            if c.rng.bool() {
                hostile_archive(c, Some(&rr)).0
            } else {
                let mut d = old;
                mutate(&mut d, &mut c.rng, 4);
                d
            }
        } else if text.contains("manifest") {
            if c.rng.bool() {
                hostile_manifest(&mut c.rng)
            } else {
                let mut d = old;
                mutate(&mut d, &mut c.rng, 4);
                d
            }
        } else {
            continue;
        };
        files.insert(n, Arc::new(new));
    }
    // absent and surplus names
    let ids: Vec<names::Id> = w.recs.keys().cloned().collect();
    if c.rng.chance(1, 3) {
        let k = c.rng.usize(names.len());
        names.remove(k);
    }
    for _ in 0..c.rng.usize(3) {
        let n = hostile_name(&mut c.rng, &ids);
        names.push(n);
    }
    if c.rng.bool() {
        c.rng.shuffle(&mut names);
    }
    let mut size = 0;
    let mut f = Fnv::new();
    for n in &names {
        f.add(n);
        size += n.len() + 1;
        if let Some(d) = files.get(n) {
            let u = *sizes
                .entry(n.clone())
                .or_insert_with(|| d.len() + if { let l = n.to_ascii_lowercase(); l.ends_with(b".gz") || l.ends_with(b".z") } { inflated(d) } else { 0 });
            size += u;
            f.add(d);
        }
    }
    c.distinct(f.0);
    c.count("whole backups walked", 1);
    c.note(|| {
        let mut s = String::new();
        for n in &names {
            s.push_str(&format!("{}\n", esc(n)));
            if let Some(d) = files.get(n) {
                s.push_str(&hexdump(d));
            }
        }
        s
    });
    let probes: Vec<Vec<u8>> = (0..4).map(|_| manif::any_path(&mut c.rng, false)).collect();
    metered(c, "backup", size, |s| {
        let be = Mem::with_names(&files, names.clone());
        let b = bworld::open(be.clone())?;
        walk_backup(&b, &probes, s, true)?;
        walk_backup(&b, &probes, s, false)?;
        debug(&b.into_inner().0.names.len(), s);
        Ok(())
    })
}

fn hexdump(d: &[u8]) -> String {
    let mut s = String::new();
    for ch in d.chunks(64).take(3000) {
        s.push_str(&esc(ch));
        s.push('\n');
    }
    s
}

// ---------------------------------------------------------------------------------------------
// large inputs

const LARGE: u64 = 43;

fn plain(kind: Kind, path: Vec<u8>, body: Vec<u8>) -> Rec {
    Rec {
        kind,
        path,
        typ: b'0',
        mtime: 1_400_000_000,
        uid: 1000,
        gid: 1000,
        uname: b"user".to_vec(),
        gname: b"group".to_vec(),
        mode: 0o644,
        link: vec![],
        body,
    }
}

fn tar_of(recs: &[Rec]) -> Vec<u8> {
    tarw::write_tar(recs, Eof::Two, |_| Enc::plain()).0
}

/// A large input of one shape, its size in eighths of a usual one.
struct Shape {
    label: &'static str,
    files: BTreeMap<Vec<u8>, Arc<Vec<u8>>>,
    size: usize,
    deep: bool,
}

fn shape(r: &mut Rng, k: u64, scale: usize, growing: bool) -> Shape {
    let label;
    let mut files: BTreeMap<Vec<u8>, Arc<Vec<u8>>> = BTreeMap::new();
    let mut size = 0usize;
    let mut deep = false;
    match k {
        0 | 1 => {
            label = "many paths";
            let n = 3000 * scale / 8;
            let recs: Vec<Rec> = (0..n)
                .map(|i| plain(Kind::Snap, format!("d{}/f{}", (i * 7919) % 97, i).into_bytes(), vec![]))
                .collect();
            let t = tar_of(&recs);
            size = t.len();
            deep = k == 1;
            files = single(if k == 0 { tarw::gz(&t, 1) } else { t }, k == 0, None);
        }
        2 => {
            label = "one path recorded many times";
            let recs: Vec<Rec> = (0..3000 * scale / 8)
                .map(|i| plain(if i % 3 == 0 { Kind::Del } else { Kind::Snap }, b"a/b".to_vec(), vec![]))
                .collect();
            let t = tar_of(&recs);
            size = t.len();
            files = single(t, false, None);
        }
        3 => {
            label = "very deep paths";
            let mut recs = Vec::new();
            // enough of them for the logarithm of the sort not to count as growth
            let (n, depth) = if growing { (150, 2_000) } else { (30, 10_000) };
            for i in 0..n * scale / 8 {
                let mut p = Vec::new();
                for _ in 0..depth {
                    p.extend(b"a/");
                }
                p.extend(format!("{}", i).as_bytes());
                recs.push(plain(Kind::Sig, p, vec![]));
            }
            r.shuffle(&mut recs);
            let t = tar_of(&recs);
            size = t.len();
            deep = true;
            files = single(t, false, None);
        }
        4 => {
            label = "slashes and dots only";
            let recs: Vec<Rec> = (0..600 * scale / 8)
                .map(|i| {
                    let mut p = vec![b'/'; i * 37 % 700];
                    if i % 3 == 0 {
                        p.push(b'.');
                    }
                    plain(Kind::Sig, p, vec![])
                })
                .collect();
            let t = tar_of(&recs);
            size = t.len();
            deep = true;
            files = single(t, false, None);
        }
        5 => {
            label = "many users";
            let recs: Vec<Rec> = (0..3000 * scale / 8)
                .map(|i| Rec {
                    uid: i as u64,
                    gid: i as u64 + 7,
                    uname: format!("u{}", i).into_bytes(),
                    gname: format!("g{}", i % 2000).into_bytes(),
                    ..plain(Kind::Snap, format!("f{}", i).into_bytes(), vec![])
                })
                .collect();
            let t = tar_of(&recs);
            size = t.len();
            deep = true;
            files = single(t, false, None);
        }
        6 => {
            label = "zeros, compressed";
            let n = 8_000_000 * scale / 8;
            let z = tarw::gz(&vec![0u8; n], 6);
            size = n;
            files = single(z, true, None);
        }
        7 => {
            label = "a huge member, compressed";
            let n = 5_000_000 * scale / 8;
            let mut b = 0x7273_0136u32.to_be_bytes().to_vec();
            b.extend(2048u32.to_be_bytes());
            b.extend(8u32.to_be_bytes());
            b.resize(n, 7);
            let t = tar_of(&[plain(Kind::Sig, b"big".to_vec(), b), plain(Kind::Snap, b"z".to_vec(), vec![])]);
            size = t.len();
            files = single(tarw::gz(&t, 1), true, None);
        }
        8 => {
            label = "many empty gzip members";
            let one = tarw::gz(b"", 1);
            let mut z = Vec::new();
            for _ in 0..20_000 * scale / 8 {
                z.extend(&one);
            }
            size = z.len();
            files = single(z, true, None);
        }
        9 => {
            label = "many long names before one member";
            let mut t = Vec::new();
            for _ in 0..300 * scale / 8 {
                let d = r.bytes(700);
                tarw::ext_member(&mut t, *r.pick(b"LKxg"), b"x", &d, true);
            }
            tarw::eof(&mut t, Eof::Two);
            size = t.len();
            files = single(t, false, None);
        }
        10 => {
            label = "a huge extension";
            let mut t = Vec::new();
            let mut d = b"signature/".to_vec();
            d.resize(2_000_000 * scale / 8, b'q');
            let typ = *r.pick(b"LKxg");
            if typ == b'x' || typ == b'g' {
                d = tarw::pax_record("path", &d);
            }
            tarw::ext_member(&mut t, typ, b"x", &d, true);
            tarw::write_rec(&mut t, &plain(Kind::Sig, b"f".to_vec(), vec![]), &Enc::plain());
            tarw::eof(&mut t, Eof::Two);
            size = t.len();
            deep = true;
            files = single(t, false, None);
        }
        11 => {
            label = "many records in an extension";
            let mut t = Vec::new();
            let mut d = Vec::new();
            for i in 0..8_000 * scale / 8 {
                d.extend(tarw::pax_record("comment", i.to_string().as_bytes()));
            }
            d.extend(tarw::pax_record("path", b"signature/z"));
            for _ in 0..3 {
                tarw::ext_member(&mut t, b'x', b"x", &d, false);
                tarw::write_rec(&mut t, &plain(Kind::Sig, b"f".to_vec(), vec![]), &Enc::plain());
            }
            tarw::eof(&mut t, Eof::Two);
            size = t.len();
            files = single(t, false, None);
        }
        12 => {
            label = "sizes that are not there";
            // members that announce more than the file holds
            let mut t = Vec::new();
            for i in 0..100 * scale / 8 {
                let big = *r.pick(&[u64::MAX, i64::MAX as u64, 1 << 40, 1 << 62, u64::MAX - 511, u64::MAX - 512]);
                let name = format!("signature/f{}", i);
                t.extend(tarw::header(&RawHeader {
                    name: name.as_bytes(),
                    prefix: b"",
                    typ: *r.pick(b"0LKxgS5"),
                    mode: 0o644,
                    uid: 0,
                    gid: 0,
                    size: if i == 0 || r.chance(1, 10) { big as i128 } else { 0 },
                    mtime: 0,
                    link: b"",
                    uname: b"",
                    gname: b"",
                    gnu: true,
                    force256: true,
                    spaces: false,
                }));
            }
            size = t.len();
            deep = true;
            files = single(t, false, None);
        }
        13 => {
            label = "a long chain";
            let n = 120 * scale / 8;
            let mut prev = 1_420_070_400i64;
            for i in 0..n {
                let now = prev + 60;
                let id = if i == 0 { (false, prev, prev) } else { (true, prev, now) };
                let recs: Vec<Rec> = (0..20)
                    .map(|j| plain(Kind::Snap, format!("f{}", (i + j) % 50).into_bytes(), vec![]))
                    .collect();
                let t = tar_of(&recs);
                for part in [names::Part::Sig, names::Part::Man] {
                    let f = names::make(id, part, false, "", names::Case::Upper, r);
                    let d = if part == names::Part::Sig { t.clone() } else { b"Hostname h\nLocaldir /\n".to_vec() };
                    size += d.len() + f.text.len();
                    files.insert(f.text.into_bytes(), Arc::new(d));
                }
                if i > 0 {
                    prev = now;
                }
            }
        }
        14 => {
            label = "many volumes in a manifest";
            let mut m = manif::random_man(r, 0);
            for i in 0..3_000 * scale / 8 {
                m.vols.push(manif::MVol {
                    start: format!("d/{:08}", i).into_bytes(),
                    sblock: None,
                    end: format!("d/{:08}", i + 1).into_bytes(),
                    eblock: Some(5),
                    htype: "SHA1".into(),
                    hash: vec![1; 20],
                });
            }
            let d = manif::write(&m, &Style::plain(), r);
            size = d.len();
            files = single(vec![], false, Some(d));
        }
        15 | 35..=41 => {
            label = "a huge line in a manifest";
            let n = 500_000 * scale / 8;
            let ch: &[u8] = *r.pick(&[&b" "[..], b"\\", b"\\x41", b"\"", b"a", b"\\\\", b"\r", b"\n", b" x", b"\xff", b"\\x"]);
            let mut fill = Vec::new();
            while fill.len() < n {
                fill.extend(ch);
            }
            let mut d = b"Hostname h\nLocaldir ".to_vec();
            match r.below(4) {
                0 => {
                    d.extend(b"/\n");
                    d.extend(&fill);
                }
                1 => {
                    d.extend(b"\"");
                    d.extend(&fill);
                    d.extend(b"\"\n");
                }
                2 => {
                    d.extend(b"/\nVolume 1:\n StartingPath \"");
                    d.extend(&fill);
                    d.extend(b"\"\n EndingPath .\n Hash SHA1 00\n");
                }
                _ => {
                    d.extend(b"/\nVolume 1:\n StartingPath .\n EndingPath .\n Hash SHA1 ");
                    d.extend(&fill);
                    d.extend(b"\n");
                }
            }
            size = d.len();
            files = single(vec![], false, Some(d));
        }
        16 => {
            label = "a huge hash or number in a manifest";
            let n = 500_000 * scale / 8;
            let digits = vec![*r.pick(b"0123456789abcdef"); n];
            let mut d = b"Hostname h\nLocaldir /\nVolume ".to_vec();
            match r.below(4) {
                0 => d.extend(&digits),
                1 => {
                    d.extend(b"1:\n StartingPath . ");
                    d.extend(&digits);
                    d.extend(b"\n EndingPath .\n Hash SHA1 00\n");
                }
                2 => {
                    d.extend(b"1:\n StartingPath .\n EndingPath .\n Hash ");
                    d.extend(&digits);
                    d.extend(b" 00\n");
                }
                _ => {
                    d.extend(b"1:\n StartingPath .\n EndingPath .\n Hash SHA1 ");
                    d.extend(&digits);
                    d.extend(b"\n");
                }
            }
            size = d.len();
            files = single(vec![], false, Some(d));
        }
        17 => {
            label = "many volume files";
            for i in 0..4_000 * scale / 8 {
                let f = names::make((false, 0, 0), names::Part::Vol(i as u64 * 1_000_003), false, ".gz", names::Case::Upper, r);
                size += f.text.len();
                files.insert(f.text.into_bytes(), Arc::new(vec![]));
            }
        }
        18 => {
            label = "many sets";
            let ids = names::random_ids(r, 400 * scale / 8);
            for id in ids {
                let f = names::make(id, names::Part::Vol(1), false, ".gz", names::Case::Upper, r);
                size += f.text.len();
                files.insert(f.text.into_bytes(), Arc::new(vec![]));
            }
        }
        19 => {
            label = "very long names";
            for _ in 0..8 * scale / 8 {
                let n = 30_000;
                let t = stamp(r.range(0, 4_000_000_000));
                let d = (b'0' + r.below(10) as u8) as char;
                let x: String = std::iter::repeat(d).take(n).collect();
                let s = match r.below(6) {
                    0 => format!("duplicity-full.{}.vol{}.difftar.gz", t, x),
                    1 => format!("duplicity-full.{}.manifest", x),
                    2 => format!("duplicity-full.{}.manifest{}", t, x),
                    3 => format!("{}duplicity-full.{}.manifest", x, t),
                    4 => format!("duplicity-inc.{}.to.{}.to.{}.vol1.difftar.gz", t, t, x),
                    _ => "duplicity-".repeat(n / 10),
                };
                size += s.len();
                files.insert(s.into_bytes(), Arc::new(vec![]));
            }
        }
        20 => {
            label = "many signature files";
            let mut prev = 0i64;
            for i in 0..400 * scale / 8 {
                let id = if i == 0 { (false, 0, 0) } else { (true, prev, prev + 60) };
                let f = names::make(id, names::Part::Sig, false, ".gz", names::Case::Upper, r);
                size += f.text.len();
                files.insert(f.text.into_bytes(), Arc::new(vec![]));
                prev = if i == 0 { 0 } else { prev + 60 };
            }
        }
        21 => {
            label = "foreign names";
            for i in 0..3_000 * scale / 8 {
                let n = format!("file {} {}", i, i * 7919).into_bytes();
                size += n.len();
                files.insert(n, Arc::new(vec![]));
            }
        }
        22 => {
            label = "many lines of a manifest without volumes";
            let mut d = b"Hostname h\nLocaldir /\n".to_vec();
            for _ in 0..100_000 * scale / 8 {
                d.extend(*r.pick(&[&b"\n"[..], b"  \n", b"\r\n"]));
            }
            size = d.len();
            files = single(vec![], false, Some(d));
        }
        23 => {
            label = "two archives of different paths";
            let n = 2000 * scale / 8;
            let mut recs: Vec<Rec> = (0..n)
                .map(|i| plain(Kind::Sig, format!("d{:03}/f{}", (i * 31) % 211, i * 2).into_bytes(), vec![]))
                .collect();
            let (mut prev, mut now) = (1_400_000_000i64, 1_400_000_000i64);
            for round in 0..3 {
                recs.sort_by_key(|a| crate::model::key(&a.path));
                let id = (round > 0, prev, now);
                let t = tar_of(&recs);
                size += t.len();
                let f = names::make(id, names::Part::Sig, false, "", names::Case::Upper, r);
                files.insert(f.text.into_bytes(), Arc::new(t));
                prev = now;
                now += 1000;
                // some of them again, gone, and new ones in between
                recs = (0..n)
                    .map(|i| {
                        let k = if i % 5 == round { Kind::Del } else { Kind::Snap };
                        plain(k, format!("d{:03}/f{}", (i * 31) % 211, i * 2 + (i % 3 + round) % 2).into_bytes(), vec![])
                    })
                    .collect();
            }
        }
        24 => {
            label = "paths in the opposite order";
            let n = 3000 * scale / 8;
            let mut recs: Vec<Rec> = (0..n)
                .map(|i| plain(Kind::Snap, format!("{:09}", n - i).into_bytes(), vec![]))
                .collect();
            if r.bool() {
                recs.rotate_left(n / 2);
            }
            let t = tar_of(&recs);
            size = t.len();
            deep = true;
            files = single(t, false, None);
        }
        25 => {
            label = "one path recorded in every archive";
            let n = 60 * scale / 8;
            let mut prev = 1_420_070_400i64;
            for i in 0..n {
                let now = if i == 0 { prev } else { prev + 60 };
                let id = (i > 0, prev, now);
                let k = if i % 7 == 3 { Kind::Del } else { Kind::Snap };
                let t = tar_of(&[plain(k, b"a".to_vec(), vec![]), plain(Kind::Snap, format!("f{}", i).into_bytes(), vec![])]);
                let f = names::make(id, names::Part::Sig, false, "", names::Case::Upper, r);
                size += t.len() + f.text.len();
                files.insert(f.text.into_bytes(), Arc::new(t));
                prev = now;
            }
        }
        26 => {
            label = "extended headers everywhere";
            let n = 1500 * scale / 8;
            let kind = r.below(4);
            let mut t = Vec::new();
            for i in 0..n {
                let mut x = plain(Kind::Snap, format!("dir{}/{}/{}", i % 9, "long".repeat(40), i).into_bytes(), vec![]);
                x.typ = b'2';
                x.link = "target/".repeat(30).into_bytes();
                let mut e = Enc::plain();
                e.force = true;
                e.long = if kind % 2 == 0 { tarw::Long::Pax } else { tarw::Long::Gnu };
                e.num = if kind < 2 { tarw::Num::Pax } else { tarw::Num::Octal };
                tarw::write_rec(&mut t, &x, &e);
            }
            tarw::eof(&mut t, Eof::Two);
            size = t.len();
            files = single(tarw::gz(&t, 1), true, None);
        }
        27 => {
            label = "volumes of one file";
            // a big file split over all the volumes
            let mut m = manif::random_man(r, 0);
            for i in 0..2_000 * scale / 8 {
                m.vols.push(manif::MVol {
                    start: b"d/big file".to_vec(),
                    sblock: Some(i as u64 * 100),
                    end: b"d/big file".to_vec(),
                    eblock: Some(i as u64 * 100 + 99),
                    htype: "SHA1".into(),
                    hash: vec![1; 20],
                });
            }
            let d = manif::write(&m, &Style::plain(), r);
            size = d.len();
            files = single(vec![], false, Some(d));
        }
        28 => {
            label = "volumes with long paths to decode";
            let mut m = manif::random_man(r, 0);
            for i in 0..150 * scale / 8 {
                let mut p = format!("d/{:06}", i).into_bytes();
                p.extend(b" \\\"'\n".repeat(100));
                m.vols.push(manif::MVol {
                    start: p.clone(),
                    sblock: None,
                    end: p,
                    eblock: None,
                    htype: "MD5".into(),
                    hash: vec![1; 16],
                });
            }
            let d = manif::write(&m, &Style::plain(), r);
            size = d.len();
            files = single(vec![], false, Some(d));
        }
        29 => {
            label = "members outside the three folders";
            let recs: Vec<Rec> = (0..3000 * scale / 8)
                .map(|i| plain(Kind::Noise, format!("other/{}", i).into_bytes(), vec![]))
                .collect();
            let t = tar_of(&recs);
            size = t.len();
            files = single(t, false, None);
        }
        30 => {
            label = "one name with many dots";
            let unit: &str = *r.pick(&[".", "..", ".part", ".gz", ".vol1", ".difftar", ".to", "duplicity-", "20150617T182545Z."]);
            let base: &str = *r.pick(&[
                "duplicity-full.20150617T182545Z.manifest",
                "duplicity-full.20150617T182545Z.vol1.difftar",
                "duplicity-full-signatures.20150617T182545Z.sigtar",
                "duplicity-inc.20150617T182545Z.to",
                "duplicity-",
            ]);
            let mut n = base.to_owned();
            while n.len() < 40_000 * scale / 8 {
                n.push_str(unit);
            }
            if r.bool() {
                n.push_str(".gz");
            }
            size = n.len();
            files.insert(n.into_bytes(), Arc::new(vec![]));
        }
        31 => {
            label = "many chains";
            for i in 0..200 * scale as i64 / 8 {
                let t = 1_400_000_000 + i * 60;
                for part in [names::Part::Sig, names::Part::Man, names::Part::Vol(1)] {
                    let f = names::make((false, t, t), part, false, "", names::Case::Upper, r);
                    size += f.text.len();
                    files.insert(f.text.into_bytes(), Arc::new(vec![]));
                }
            }
        }
        32 => {
            label = "most paths deleted";
            let n = 4000 * scale / 8;
            let gap = 1 + r.usize(3);
            let mut prev = 1_400_000_000i64;
            for round in 0..2i64 {
                let now = prev + 500 * round;
                let recs: Vec<Rec> = (0..n)
                    .filter(|i| round == 0 || i % (n / gap) != 0)
                    .map(|i| {
                        let k = if round == 0 { Kind::Snap } else { Kind::Del };
                        plain(k, format!("d{:03}/f{:06}", i / 500, i).into_bytes(), vec![])
                    })
                    .collect();
                let t = tar_of(&recs);
                size += t.len();
                let f = names::make((round > 0, prev, now), names::Part::Sig, false, "", names::Case::Upper, r);
                files.insert(f.text.into_bytes(), Arc::new(t));
                prev = now;
            }
        }
        33 => {
            label = "members without a usable name";
            let n = 5000 * scale / 8;
            let which = r.below(3);
            let mut recs: Vec<Rec> = Vec::new();
            let mut t = Vec::new();
            for i in 0..n {
                let name: &[u8] = match which {
                    0 => b"",
                    1 => b"signature",
                    _ => *r.pick(&[&b""[..], b"snapshot", b"a/b", b"/", b"deleted", b"\xff/x"]),
                };
                t.extend(tarw::header(&RawHeader {
                    name,
                    prefix: b"",
                    typ: b'0',
                    mode: 0o644,
                    uid: i as i128 as _,
                    gid: 0,
                    size: 0,
                    mtime: 0,
                    link: b"",
                    uname: b"",
                    gname: b"",
                    gnu: true,
                    force256: false,
                    spaces: false,
                }));
            }
            recs.push(plain(Kind::Snap, b"end".to_vec(), vec![]));
            t.extend(tar_of(&recs));
            size = t.len();
            deep = true;
            files = single(t, false, None);
        }
        _ => {
            label = "random bytes, compressed";
            let t = r.bytes(2_000_000 * scale / 8);
            let z = tarw::gz(&t, 1);
            size = t.len();
            files = single(z, true, None);
        }
    }
    size += files.iter().map(|(n, d)| n.len() + d.len()).sum::<usize>();
    Shape {
        label,
        files,
        size,
        deep,
    }
}

fn large(c: &mut Ctx, k: u64) -> R {
    c.count("large inputs", 1);
    let scale = if c.thorough { 4 } else { 1 } * 8 * (1 + c.rng.usize(3));
    let sh = shape(&mut c.rng, k, scale, false);
    let mut f = Fnv::new();
    f.num(k).num(sh.size as u64).num(c.rng.next());
    c.distinct(f.0);
    c.note(|| format!("large input {}: {} files, {} bytes", sh.label, sh.files.len(), sh.size));
    let be = Mem::new(&sh.files);
    metered(c, sh.label, sh.size, |s| {
        let b = bworld::open(be.clone())?;
        walk_backup(&b, &large_probes(), s, sh.deep)
    })
}

fn large_probes() -> Vec<Vec<u8>> {
    vec![b"d/00000100".to_vec(), b"".to_vec(), b"a/".repeat(2000), b"d/big file".to_vec()]
}

/// The work grows with the size of the input, not with its square.
fn growth(c: &mut Ctx, k: u64) -> R {
    if !hooks::timed() {
        c.count("growths measured", 1);
        return Ok(());
    }
    let small = if c.thorough { 8 } else { 3 };
    let seed = c.rng.next();
    let mut label = "";
    let mut cost = |scale: usize, times: usize| -> Result<(u64, usize), String> {
        let sh = shape(&mut Rng::new(seed), k, scale, true);
        label = sh.label;
        let be = Mem::new(&sh.files);
        let mut best = u64::MAX;
        for _ in 0..times {
            let t0 = hooks::cpu_ns();
            let mut s = Seen::default();
            let b = bworld::open(be.clone())?;
            walk_backup(&b, &large_probes(), &mut s, sh.deep)?;
            drop(b);
            best = best.min(hooks::cpu_ns() - t0);
        }
        Ok((best, sh.size))
    };
    let (mut a, size_a) = cost(small, 3)?;
    let (mut z, size_z) = cost(small * 8, 1)?;
    let allowed = |a: u64| a.max(300_000) * 28;
    if z > allowed(a) {
        // was it the machine?
        a = a.max(cost(small, 3)?.0);
        z = z.min(cost(small * 8, 3)?.0);
    }
    c.count("growths measured", 1);
    c.max("tenths of growth of the CPU time for eight times the input", z * 10 / a.max(300_000));
    c.distinct_of(&[b"growth", label.as_bytes(), &seed.to_le_bytes()]);
    ensure!(
        z <= allowed(a),
        "{}: {} us of CPU for {} bytes, but {} us for {} bytes",
        label,
        a / 1000,
        size_a,
        z / 1000,
        size_z
    );
    Ok(())
}
