//! Manifests: model, writer, and comparison with what the library reports.

use crate::ensure;
use crate::util::{esc, Rng};
use crate::world::component;
use ruplicity::manifest::{Manifest, Volume};
use std::os::unix::ffi::OsStrExt;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MVol {
    pub start: Vec<u8>,
    pub sblock: Option<u64>,
    pub end: Vec<u8>,
    pub eblock: Option<u64>,
    pub htype: String,
    pub hash: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Man {
    pub host: String,
    pub dir: Vec<u8>,
    pub vols: Vec<MVol>,
}

/// duplicity's Quote(): only when needed, everything dangerous as \xNN
pub fn quote(s: &[u8]) -> Vec<u8> {
    let bad = |c: u8| (9..=13).contains(&c) || c == b' ' || c == b'\\' || c == b'"' || c == b'\'';
    if s.is_empty() {
        return b"\"\"".to_vec();
    }
    if !s.iter().any(|c| bad(*c)) {
        return s.to_vec();
    }
    let mut v = vec![b'"'];
    for &c in s {
        if bad(c) {
            v.extend(format!("\\x{:02x}", c).into_bytes());
        } else {
            v.push(c);
        }
    }
    v.push(b'"');
    v
}

pub fn any_path(r: &mut Rng, text: bool) -> Vec<u8> {
    let n = r.usize(5);
    if n == 0 {
        return b".".to_vec();
    }
    // as long as paths get, and longer
    let n = if r.chance(1, 400) { 100 + r.usize(8000) } else { n };
    let n = if r.chance(1, 30) { r.count(n, 30_000) } else { r.count(n, 40) };
    let mut v = Vec::new();
    for i in 0..n {
        if i > 0 {
            v.push(b'/');
        }
        v.extend(component(r, text));
    }
    v
}

pub fn random_man(r: &mut Rng, max_vols: usize) -> Man {
    let hosts = ["dellxps", "h", "", "srv-01.example.org", "caf\u{e9}", "\u{4f60}\u{597d}"];
    let dirs: [&[u8]; 5] = [b"/", b"/home/michele", b"/a b/c\\d\"e", b"/\xff\xfe\n", b"rel'ative"];
    let nv = if max_vols == 0 { 0 } else { r.usize(max_vols + 1) };
    let most = if r.chance(1, 16) { 3000 } else { 30 };
    let nv = if max_vols == 0 { 0 } else { r.count(nv, most) };
    let mut vols = Vec::new();
    for _ in 0..nv {
        vols.push(MVol {
            start: any_path(r, false),
            sblock: block(r),
            end: any_path(r, false),
            eblock: block(r),
            htype: match r.special_text(8).and_then(|t| String::from_utf8(t).ok()) {
                Some(t) if !t.is_empty() && t.chars().all(|c| c.is_alphanumeric() || ".-_/:#".contains(c)) => t,
                _ => (*r.pick(&["SHA1", "MD5", "SHA256", "x-\u{e9}", "blake2b", "Sha512"])).to_owned(),
            },
            hash: {
                let n = *r.pick(&[1usize, 16, 20, 32, 64]);
                let n = r.count(n, 5000);
                r.bytes(n)
            },
        });
    }
    Man {
        host: match r.special_text(8).and_then(|t| String::from_utf8(t).ok()) {
            // written as it is
            Some(t) if t.chars().all(|c| c.is_alphanumeric() || ".-_/:#".contains(c)) => t,
            _ => (*r.pick(&hosts)).to_owned(),
        },
        dir: match r.special_text(8) {
            Some(t) if !t.is_empty() => t,
            _ => r.pick(&dirs).to_vec(),
        },
        vols,
    }
}
fn block(r: &mut Rng) -> Option<u64> {
    match r.below(4) {
        0 => Some(r.wild()),
        1 => Some(r.below(1000)),
        _ => None,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub crlf: bool,
    pub pad: bool,
    pub blank: bool,
    pub final_newline: bool,
    /// the colon after the volume number
    pub colon: bool,
}
impl Style {
    pub fn plain() -> Style {
        Style {
            crlf: false,
            pad: false,
            blank: false,
            final_newline: true,
            colon: true,
        }
    }
    pub fn random(r: &mut Rng) -> Style {
        Style {
            crlf: r.chance(1, 3),
            pad: r.bool(),
            blank: r.chance(1, 3),
            final_newline: r.chance(3, 4),
            colon: true,
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{:02x}", c)).collect()
}

/// The logical lines, each a list of words.
pub fn lines(m: &Man) -> Vec<Vec<Vec<u8>>> {
    let w = |s: &str| s.as_bytes().to_vec();
    let mut out = Vec::new();
    let mut h = vec![w("Hostname")];
    if !m.host.is_empty() {
        h.push(w(&m.host));
    }
    out.push(h);
    out.push(vec![w("Localdir"), quote(&m.dir)]);
    for (i, v) in m.vols.iter().enumerate() {
        out.push(vec![w("Volume"), w(&format!("{}:", i + 1))]);
        let mut l = vec![w("StartingPath"), quote(&v.start)];
        if let Some(b) = v.sblock {
            l.push(w(&b.to_string()));
        }
        out.push(l);
        let mut l = vec![w("EndingPath"), quote(&v.end)];
        if let Some(b) = v.eblock {
            l.push(w(&b.to_string()));
        }
        out.push(l);
        out.push(vec![w("Hash"), w(&v.htype), w(&hex(&v.hash))]);
    }
    out
}

pub fn render(lines: &[Vec<Vec<u8>>], st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let nl: &[u8] = if st.crlf { b"\r\n" } else { b"\n" };
    let spaces = |r: &mut Rng, lo: usize| vec![b' '; lo + r.usize(4)];
    for (i, l) in lines.iter().enumerate() {
        if st.blank {
            while r.chance(1, 3) {
                if r.bool() {
                    out.extend(spaces(r, 0));
                }
                out.extend(nl);
            }
        }
        let inner = l.first().map_or(false, |w| {
            w == b"StartingPath" || w == b"EndingPath" || w == b"Hash"
        });
        if st.pad {
            out.extend(spaces(r, 0));
        } else if inner {
            out.extend(b"    ");
        }
        for (j, word) in l.iter().enumerate() {
            if j > 0 {
                if st.pad {
                    out.extend(spaces(r, 1));
                } else if j == 1 && l[0] == b"StartingPath" {
                    out.extend(b"   ");
                } else if j == 1 && l[0] == b"EndingPath" {
                    out.extend(b"     ");
                } else {
                    out.push(b' ');
                }
            }
            out.extend(word);
        }
        if l.len() == 1 && l[0] == b"Hostname" && !st.pad {
            out.push(b' ');
        }
        if st.pad && r.bool() {
            out.extend(spaces(r, 0));
        }
        if i + 1 < lines.len() || st.final_newline {
            out.extend(nl);
        }
    }
    if st.blank && st.final_newline {
        while r.chance(1, 3) {
            out.extend(nl);
        }
    }
    out
}

pub fn write(m: &Man, st: &Style, r: &mut Rng) -> Vec<u8> {
    render(&lines(m), st, r)
}

/// What the library reports, through every accessor.
pub fn compare(got: &Manifest, want: &Man) -> Result<(), String> {
    ensure!(
        got.hostname() == want.host,
        "hostname {:?}, expected {:?}",
        got.hostname(),
        want.host
    );
    let dir = got.local_dir().map(|p| p.as_os_str().as_bytes().to_vec());
    ensure!(
        dir.as_ref().map(|d| &d[..]) == Some(&want.dir[..]),
        "local dir {:?}, expected {}",
        dir.map(|d| esc(&d)),
        esc(&want.dir)
    );
    ensure!(
        got.last_volume_index() == want.vols.len(),
        "{} volumes, expected {}",
        got.last_volume_index(),
        want.vols.len()
    );
    ensure!(got.volume(0).is_none(), "volume 0 exists");
    ensure!(
        got.volume(want.vols.len() + 1).is_none(),
        "a volume past the last exists"
    );
    ensure!(got.volume(usize::MAX).is_none(), "volume MAX exists");
    for (i, w) in want.vols.iter().enumerate() {
        match got.volume(i + 1) {
            None => return Err(format!("volume {} missing", i + 1)),
            Some(v) => compare_vol(v, w).map_err(|e| format!("volume {}: {}", i + 1, e))?,
        }
    }
    Ok(())
}

fn compare_vol(v: &Volume, w: &MVol) -> Result<(), String> {
    ensure!(
        v.start_path_bytes() == &w.start[..],
        "start path {}, expected {}",
        esc(v.start_path_bytes()),
        esc(&w.start)
    );
    ensure!(
        v.end_path_bytes() == &w.end[..],
        "end path {}, expected {}",
        esc(v.end_path_bytes()),
        esc(&w.end)
    );
    ensure!(
        v.start_path().map(|p| p.as_os_str().as_bytes()) == Some(&w.start[..]),
        "start_path() differs from its bytes"
    );
    ensure!(
        v.end_path().map(|p| p.as_os_str().as_bytes()) == Some(&w.end[..]),
        "end_path() differs from its bytes"
    );
    ensure!(
        v.start_block().map(|b| b as u64) == w.sblock,
        "start block {:?}, expected {:?}",
        v.start_block(),
        w.sblock
    );
    ensure!(
        v.end_block().map(|b| b as u64) == w.eblock,
        "end block {:?}, expected {:?}",
        v.end_block(),
        w.eblock
    );
    ensure!(v.hash_type() == w.htype, "hash type {:?}", v.hash_type());
    ensure!(
        v.hash() == &w.hash[..],
        "hash {}, expected {}",
        hex(v.hash()),
        hex(&w.hash)
    );
    Ok(())
}

/// The volumes of consecutive runs of paths, as duplicity fills them: each volume starts where the
/// previous ends (same path, next block) or at the next path.
pub fn volumes_over(paths: &[Vec<u8>], r: &mut Rng) -> Vec<MVol> {
    let mut vols = Vec::new();
    if paths.is_empty() {
        return vols;
    }
    let nv = 1 + r.usize(6);
    let mut i = 0;
    let mut blk: u64 = 0;
    let blocks = r.bool();
    for v in 0..nv {
        let start = paths[i].clone();
        let sb = if blk > 0 && blocks { Some(blk) } else { None };
        let last = v + 1 == nv;
        let j = if last {
            paths.len() - 1
        } else {
            i + r.usize(paths.len() - i)
        };
        let split = !last && r.bool();
        let eb = if split {
            blk = if j == i { blk } else { 0 } + 1 + r.below(30);
            if blocks {
                Some(blk - 1)
            } else {
                None
            }
        } else {
            None
        };
        vols.push(MVol {
            start,
            sblock: sb,
            end: paths[j].clone(),
            eblock: eb,
            htype: "SHA1".into(),
            hash: r.bytes(20),
        });
        if split {
            i = j;
        } else {
            blk = 0;
            i = j + 1;
            if i >= paths.len() {
                break;
            }
        }
    }
    vols
}
