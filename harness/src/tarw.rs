//! An independent writer of signature archives: tar members in several encodings, and gzip.

use crate::hbug;
use crate::util::Rng;
use std::io::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Sig,
    Snap,
    Del,
    /// a member outside of the three folders: `path` is its whole name
    Noise,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub kind: Kind,
    pub path: Vec<u8>,
    pub typ: u8,
    pub mtime: i64,
    pub uid: u64,
    pub gid: u64,
    pub uname: Vec<u8>,
    pub gname: Vec<u8>,
    pub mode: u32,
    pub link: Vec<u8>,
    pub body: Vec<u8>,
}

impl Rec {
    pub fn member_name(&self, slash: bool) -> Vec<u8> {
        let mut v = match self.kind {
            Kind::Sig => b"signature/".to_vec(),
            Kind::Snap => b"snapshot/".to_vec(),
            Kind::Del => b"deleted/".to_vec(),
            Kind::Noise => Vec::new(),
        };
        v.extend_from_slice(&self.path);
        if slash && self.kind != Kind::Noise && !self.path.is_empty() {
            v.push(b'/');
        }
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Long {
    Gnu,
    Pax,
    Ustar,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Num {
    Octal,
    Base256,
    Pax,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Eof {
    None,
    One,
    Two,
    Record,
}

/// How one member is encoded.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Enc {
    pub long: Long,
    /// use the extension even if the name fits in the header
    pub force: bool,
    pub num: Num,
    pub gnu_magic: bool,
    /// trailing slash on folders
    pub slash: bool,
    /// NUL as type of regular files
    pub nul_type: bool,
    pub oct_spaces: bool,
    /// what the header shows as the name if an extension holds the real one
    pub hold: u8,
    /// which of the possible places a name is split at
    pub split: u8,
}

impl Enc {
    pub fn plain() -> Enc {
        Enc {
            long: Long::Gnu,
            force: false,
            num: Num::Octal,
            gnu_magic: true,
            slash: false,
            nul_type: false,
            oct_spaces: false,
            hold: 0,
            split: 0,
        }
    }
    /// The name in a header that an extension overrides.
    fn shown(&self, name: &[u8], max: usize) -> Vec<u8> {
        match self.hold {
            1 => b"././@LongName".to_vec(),
            2 => b"deleted/placeholder".to_vec(),
            3 => b"x".to_vec(),
            4 => b"snapshot/a".to_vec(),
            _ => name.iter().cloned().take(max).collect(),
        }
    }
    pub fn random(r: &mut Rng) -> Enc {
        Enc {
            long: *r.pick(&[Long::Gnu, Long::Pax, Long::Ustar]),
            force: r.chance(1, 4),
            num: *r.pick(&[Num::Octal, Num::Octal, Num::Base256, Num::Pax]),
            gnu_magic: r.bool(),
            slash: r.bool(),
            nul_type: r.chance(1, 4),
            oct_spaces: r.chance(1, 4),
            hold: if r.bool() { 0 } else { r.below(5) as u8 },
            split: r.below(4) as u8,
        }
    }
}

fn octal(field: &mut [u8], v: u64, spaces: bool) {
    let n = field.len();
    let s = if spaces {
        format!("{:>w$o} ", v, w = n - 2)
    } else {
        format!("{:0>w$o}", v, w = n - 1)
    };
    if s.len() > n - 1 {
        hbug!("octal overflow {} in {}", v, n);
    }
    field[..s.len()].copy_from_slice(s.as_bytes());
}
fn base256(field: &mut [u8], v: i128) {
    let n = field.len();
    for i in 0..n {
        let sh = 8 * (n - 1 - i);
        field[i] = if sh >= 128 {
            (v >> 127) as u8
        } else {
            (v >> sh) as u8
        };
    }
    if v >= 0 {
        field[0] |= 0x80;
    }
}
fn num_field(field: &mut [u8], v: i128, force256: bool, spaces: bool) {
    let digits = field.len() as u32 - if spaces { 2 } else { 1 };
    if force256 || v < 0 || v >= (1i128 << (3 * digits)) {
        base256(field, v);
    } else {
        octal(field, v as u64, spaces);
    }
}

pub fn checksum(h: &mut [u8]) {
    for b in &mut h[148..156] {
        *b = b' ';
    }
    let sum: u32 = h[..512].iter().map(|b| *b as u32).sum();
    let s = format!("{:06o}\0 ", sum);
    h[148..156].copy_from_slice(s.as_bytes());
}

pub struct RawHeader<'a> {
    pub name: &'a [u8],
    pub prefix: &'a [u8],
    pub typ: u8,
    pub mode: u32,
    pub uid: i128,
    pub gid: i128,
    pub size: i128,
    pub mtime: i128,
    pub link: &'a [u8],
    pub uname: &'a [u8],
    pub gname: &'a [u8],
    pub gnu: bool,
    pub force256: bool,
    pub spaces: bool,
}

pub fn header(o: &RawHeader) -> Vec<u8> {
    let mut h = vec![0u8; 512];
    let put = |h: &mut Vec<u8>, at: usize, max: usize, b: &[u8]| {
        let n = b.len().min(max);
        h[at..at + n].copy_from_slice(&b[..n]);
    };
    put(&mut h, 0, 100, o.name);
    octal(&mut h[100..108], o.mode as u64, o.spaces);
    num_field(&mut h[108..116], o.uid, o.force256, o.spaces);
    num_field(&mut h[116..124], o.gid, o.force256, o.spaces);
    num_field(&mut h[124..136], o.size, o.force256, o.spaces);
    num_field(&mut h[136..148], o.mtime, o.force256, o.spaces);
    h[156] = o.typ;
    put(&mut h, 157, 100, o.link);
    if o.gnu {
        h[257..265].copy_from_slice(b"ustar  \0");
    } else {
        h[257..265].copy_from_slice(b"ustar\x0000");
        put(&mut h, 345, 155, o.prefix);
    }
    put(&mut h, 265, 32, o.uname);
    put(&mut h, 297, 32, o.gname);
    checksum(&mut h);
    h
}

pub fn pad(out: &mut Vec<u8>) {
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

pub fn pax_record(key: &str, value: &[u8]) -> Vec<u8> {
    // the length counts itself
    let base = key.len() + value.len() + 3;
    let mut n = base + 1;
    loop {
        let t = base + n.to_string().len();
        if t == n {
            break;
        }
        n = t;
    }
    let mut v = format!("{} {}=", n, key).into_bytes();
    v.extend_from_slice(value);
    v.push(b'\n');
    v
}

pub fn ext_member(out: &mut Vec<u8>, typ: u8, name: &[u8], data: &[u8], gnu: bool) {
    out.extend(header(&RawHeader {
        name,
        prefix: b"",
        typ,
        mode: 0o644,
        uid: 0,
        gid: 0,
        size: data.len() as i128,
        mtime: 0,
        link: b"",
        uname: b"",
        gname: b"",
        gnu,
        force256: false,
        spaces: false,
    }));
    out.extend_from_slice(data);
    pad(out);
}

/// where a member of an archive lies
#[derive(Clone, Copy, Debug)]
pub struct Span {
    /// first byte, including its extension headers
    pub start: usize,
    /// offset of its own header
    pub header: usize,
    /// end of its body, without padding
    pub body_end: usize,
    /// end with padding
    pub end: usize,
}

fn split_ustar(name: &[u8], nth: u8) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut found: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    for i in 0..name.len() {
        if name[i] == b'/' && i > 0 && i <= 155 && i + 1 < name.len() && name.len() - i - 1 <= 100 {
            found.push((name[..i].to_vec(), name[i + 1..].to_vec()));
        }
    }
    if found.is_empty() {
        None
    } else {
        let k = nth as usize % found.len();
        Some(found.swap_remove(k))
    }
}

pub fn write_rec(out: &mut Vec<u8>, r: &Rec, e: &Enc) -> Span {
    let start = out.len();
    let name = r.member_name(e.slash && r.typ == b'5');
    let mut gnu = e.gnu_magic;
    let mut pax: Vec<u8> = Vec::new();
    let nl = |b: &[u8]| b.contains(&b'\n');
    let mut prefix = Vec::new();
    let mut short = name.clone();
    let mut longname = false;
    if name.len() > 100 || e.force {
        let mut style = e.long;
        if style == Long::Ustar {
            match split_ustar(&name, e.split) {
                Some((p, n)) => {
                    prefix = p;
                    short = n;
                    gnu = false;
                }
                None if name.len() <= 100 => (),
                None => style = Long::Gnu,
            }
        }
        if style == Long::Pax && nl(&name) {
            style = Long::Gnu;
        }
        match style {
            Long::Pax => {
                pax.extend(pax_record("path", &name));
                short = e.shown(&name, 90);
                gnu = false;
            }
            Long::Gnu => {
                longname = true;
                short = e.shown(&name, 100);
            }
            Long::Ustar => (),
        }
    }
    let mut longlink = false;
    if r.link.len() > 100 || (e.force && !r.link.is_empty()) {
        if e.long == Long::Pax && !nl(&r.link) {
            pax.extend(pax_record("linkpath", &r.link));
            gnu = false;
        } else if r.link.len() > 100 || e.long == Long::Gnu {
            longlink = true;
        }
    }
    let (mut uid, mut gid, mut size) = (r.uid as i128, r.gid as i128, r.body.len() as i128);
    if e.num == Num::Pax {
        pax.extend(pax_record("uid", r.uid.to_string().as_bytes()));
        pax.extend(pax_record("gid", r.gid.to_string().as_bytes()));
        if !r.body.is_empty() {
            pax.extend(pax_record("size", r.body.len().to_string().as_bytes()));
            size = 0;
        }
        uid = 0;
        gid = 0;
        gnu = false;
    }
    if !pax.is_empty() {
        ext_member(out, b'x', b"PaxHeaders.0/x", &pax, false);
    }
    if longlink {
        let mut d = r.link.clone();
        d.push(0);
        ext_member(out, b'K', b"././@LongLink", &d, true);
    }
    if longname {
        let mut d = name.clone();
        d.push(0);
        ext_member(out, b'L', b"././@LongLink", &d, true);
    }
    let at = out.len();
    let typ = if r.typ == b'0' && e.nul_type { 0 } else { r.typ };
    out.extend(header(&RawHeader {
        name: &short,
        prefix: &prefix,
        typ,
        mode: r.mode,
        uid,
        gid,
        size,
        mtime: r.mtime as i128,
        link: &r.link,
        uname: &r.uname,
        gname: &r.gname,
        gnu,
        force256: e.num == Num::Base256,
        spaces: e.oct_spaces,
    }));
    out.extend_from_slice(&r.body);
    let body_end = out.len();
    pad(out);
    Span {
        start,
        header: at,
        body_end,
        end: out.len(),
    }
}

pub fn eof(out: &mut Vec<u8>, e: Eof) {
    match e {
        Eof::None => (),
        Eof::One => out.extend([0u8; 512]),
        Eof::Two => out.extend([0u8; 1024]),
        Eof::Record => {
            out.extend([0u8; 1024]);
            while out.len() % 10240 != 0 {
                out.extend([0u8; 512]);
            }
        }
    }
}

/// Writes all the records, each with its own encoding.
pub fn write_tar<F: FnMut(usize) -> Enc>(recs: &[Rec], end: Eof, mut enc: F) -> (Vec<u8>, Vec<Span>) {
    let mut out = Vec::new();
    let mut spans = Vec::new();
    for (i, r) in recs.iter().enumerate() {
        let e = enc(i);
        spans.push(write_rec(&mut out, r, &e));
    }
    eof(&mut out, end);
    (out, spans)
}

pub fn gz_member(data: &[u8], level: u32, fancy: bool) -> Vec<u8> {
    let b = if fancy {
        flate2::GzBuilder::new()
            .filename("sig tar")
            .comment("made by a monitor")
            .extra(vec![1u8, 2, 3, 4])
            .mtime(1_234_567)
    } else {
        flate2::GzBuilder::new()
    };
    let mut w = b.write(Vec::new(), flate2::Compression::new(level));
    match w.write_all(data).and_then(|_| w.finish()) {
        Ok(v) => v,
        Err(e) => hbug!("gzip: {}", e),
    }
}

/// gzip in a single member
pub fn gz(data: &[u8], level: u32) -> Vec<u8> {
    gz_member(data, level, false)
}

/// gzip cut in random members, some of them empty
pub fn gz_multi(data: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut out = Vec::new();
    let mut pos = 0;
    let n = 1 + r.usize(5);
    for i in 0..n {
        let end = if i + 1 == n {
            data.len()
        } else {
            pos + r.usize(data.len() - pos + 1)
        };
        if r.chance(1, 6) {
            out.extend(gz_member(b"", 1, false));
        }
        let level = *r.pick(&[0u32, 1, 6, 9]);
        let fancy = r.chance(1, 4);
        out.extend(gz_member(&data[pos..end], level, fancy));
        pos = end;
    }
    out
}

/// The body of a librsync signature.
pub fn rsync_sig(magic: u32, block: u32, strong: u32, blocks: usize, tail: usize, r: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&magic.to_be_bytes());
    v.extend_from_slice(&block.to_be_bytes());
    v.extend_from_slice(&strong.to_be_bytes());
    let n = (4 + strong as usize) * blocks + tail;
    v.extend(r.bytes(n));
    v
}
