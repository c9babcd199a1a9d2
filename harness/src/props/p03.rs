//! P03: size bounds.

use crate::be::Mem;
use crate::bworld;
use crate::ctx::{Ctx, R};
use crate::model::{self, key, Key};
use crate::names::{self, Case, Part};
use crate::sup::Prop;
use crate::tarw::{self, Enc, Eof, Kind, Num, RawHeader, Rec};
use crate::util::{esc, Fnv, Rng};
use crate::{ensure, hbug};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P03",
        f: p03,
        quick: 10000,
        thorough: 120000,
        level: "exploration",
        rule: "a case is a signature archive with up to 12 records: signatures of files of a known length (0 to 2^62, block lengths 1 to 2^32-1, strong sums 1 to 2^32-1), plain snapshots, truncated or foreign signatures, sizes in octal, base-256 or PAX, the last one possibly declaring far more data than the archive holds; distinct by (length, block, strong sum, encoding), non-trivial if a bound was checked",
        need: &[("signatures of known files", 20_000), ("plain snapshots", 10_000), ("must be unknown", 10_000), ("declared more than present", 1_000), ("numbers not representable", 100)],
        assumptions: &["usize has 64 bits"],
    }]
}

#[derive(Clone, Debug)]
enum Want {
    /// encloses this length, within this block length
    File(u64, u64),
    Exact(u64),
    Unknown,
    /// nothing claimed but no crash
    Any,
}

fn blocks_of(len: u64, block: u64) -> u64 {
    len / block + if len % block > 0 { 1 } else { 0 }
}

fn sig_header(magic: u32, block: u32, strong: u32) -> Vec<u8> {
    let mut v = Vec::new();
    for n in [magic, block, strong] {
        v.extend_from_slice(&n.to_be_bytes());
    }
    v
}

fn block_len(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => *r.pick(&[1u32, 2, 511, 512, 513, 2048, 4096, 65536, u32::MAX]),
        1 => (r.wild() as u32).max(1),
        _ => 1 + r.below(5000) as u32,
    }
}

fn rec(kind: Kind, path: Vec<u8>, body: Vec<u8>) -> Rec {
    Rec {
        kind,
        path,
        typ: b'0',
        mtime: 1_400_000_000,
        uid: 1000,
        gid: 1000,
        uname: b"u".to_vec(),
        gname: b"g".to_vec(),
        mode: 0o644,
        link: vec![],
        body,
    }
}

fn p03(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let mut archive = Vec::new();
    let mut want: BTreeMap<Key, (Want, String)> = BTreeMap::new();
    let n = 1 + r.usize(12);
    let mut counts: Vec<(&'static str, u64)> = Vec::new();
    let mut hashes = Vec::new();
    for i in 0..n {
        let path = format!("f{:02}", i).into_bytes();
        let enc = Enc::random(r);
        let (kind, body, w, what) = match r.below(10) {
            0..=4 => {
                // a real signature of a file of this length
                let block = block_len(r);
                let strong = *r.pick(&[1u32, 4, 8, 8, 16, 32]);
                let nb = r.below(30);
                let len = match r.below(4) {
                    0 => nb * block as u64,
                    1 => (nb * block as u64).saturating_sub(1),
                    2 => nb * block as u64 + 1,
                    _ => r.below(nb * block as u64 + 1),
                };
                let body = tarw::rsync_sig(
                    0x7273_0136,
                    block,
                    strong,
                    blocks_of(len, block as u64) as usize,
                    0,
                    r,
                );
                (
                    Kind::Sig,
                    body,
                    Want::File(len, block as u64),
                    format!("signature of {} bytes, block {} strong {}", len, block, strong),
                )
            }
            5 | 6 => {
                let n = match r.below(4) {
                    0 => *r.pick(&[0usize, 1, 11, 12, 511, 512, 513, 1024]),
                    _ => r.usize(3000),
                };
                let body = r.bytes(n);
                (Kind::Snap, body, Want::Exact(n as u64), format!("snapshot of {} bytes", n))
            }
            7 => {
                // not enough information
                let n = r.usize(12);
                let mut b = sig_header(0x7273_0136, 512, 8);
                b.truncate(n);
                (Kind::Sig, b, Want::Unknown, format!("signature cut at {} bytes", n))
            }
            8 => {
                let magic = match r.below(4) {
                    0 => 0x7273_0137,
                    1 => 0x7273_0146,
                    2 => 0x7273_0236,
                    _ => (r.next() as u32) & 0xfeff_ffff,
                };
                let magic = if magic == 0x7273_0136 { 0 } else { magic };
                let nb = r.usize(5);
                let b = tarw::rsync_sig(magic, 512, 8, nb, 0, r);
                (Kind::Sig, b, Want::Unknown, format!("signature with magic {:x}", magic))
            }
            _ => {
                // a header with any numbers: no claim
                let mut b = sig_header(0x7273_0136, r.wild() as u32, r.wild() as u32);
                let n = r.usize(60);
                b.extend(r.bytes(n));
                (Kind::Sig, b, Want::Any, "signature with random numbers".into())
            }
        };
        let x = rec(kind, path.clone(), body);
        tarw::write_rec(&mut archive, &x, &enc);
        want.insert(key(&path), (w, format!("{} ({:?})", what, enc)));
    }
    // the last record may declare much more than the archive holds
    let mut huge = false;
    if r.bool() {
        huge = true;
        let path = b"zz".to_vec();
        let gnu = r.bool();
        let (kind, declared, body, w, what): (Kind, u64, Vec<u8>, Want, String) = match r.below(3) {
            0 => {
                let block = block_len(r);
                let strong = match r.below(4) {
                    0 => r.wild() as u32,
                    _ => 8,
                };
                let len = r.wild() >> 2;
                let nb = blocks_of(len, block as u64);
                let decl = nb as u128 * (4 + strong as u128) + 12;
                if decl >= 1 << 62 {
                    // such a member cannot exist: a file as large as fits
                    (Kind::Sig, 12, sig_header(0x7273_0136, block, strong), Want::File(0, block as u64), "empty".into())
                } else {
                    let max = nb as u128 * block as u128;
                    let w = if max > u64::MAX as u128 {
                        Want::Unknown
                    } else {
                        Want::File(len, block as u64)
                    };
                    (
                        Kind::Sig,
                        decl as u64,
                        sig_header(0x7273_0136, block, strong),
                        w,
                        format!("signature of {} bytes, block {} strong {}", len, block, strong),
                    )
                }
            }
            1 => {
                let n = r.wild() >> 2;
                (Kind::Snap, n, vec![], Want::Exact(n), format!("snapshot of {} bytes", n))
            }
            _ => {
                // block length times number of blocks does not fit in 64 bits
                let block = u32::MAX - r.below(10) as u32;
                let nb = (1u64 << 33) + r.below(1 << 50);
                counts.push(("numbers not representable", 1));
                (
                    Kind::Sig,
                    nb * 9 + 12,
                    sig_header(0x7273_0136, block, 5),
                    Want::Unknown,
                    format!("signature with {} blocks of {}", nb, block),
                )
            }
        };
        let pax = r.chance(1, 3);
        if pax {
            let data = tarw::pax_record("size", declared.to_string().as_bytes());
            let mut h = tarw::header(&RawHeader {
                name: b"PaxHeaders/x",
                prefix: b"",
                typ: b'x',
                mode: 0o644,
                uid: 0,
                gid: 0,
                size: data.len() as i128,
                mtime: 0,
                link: b"",
                uname: b"",
                gname: b"",
                gnu: false,
                force256: false,
                spaces: false,
            });
            h.extend(&data);
            tarw::pad(&mut h);
            archive.extend(h);
        }
        let x = rec(kind, path.clone(), vec![]);
        let name = x.member_name(false);
        archive.extend(tarw::header(&RawHeader {
            name: &name,
            prefix: b"",
            typ: b'0',
            mode: 0o644,
            uid: 1000,
            gid: 1000,
            size: if pax { 0 } else { declared as i128 },
            mtime: 1_400_000_000,
            link: b"",
            uname: b"u",
            gname: b"g",
            gnu: gnu && !pax,
            force256: r.bool(),
            spaces: false,
        }));
        archive.extend(&body);
        if (body.len() as u64) < declared {
            counts.push(("declared more than present", 1));
        }
        want.insert(key(&path), (w, format!("{} (declared {})", what, declared)));
    } else {
        tarw::eof(&mut archive, Eof::Two);
    }
    let comp = r.bool();
    let id = (false, 1_500_000_000, 1_500_000_000);
    let f = names::make(id, Part::Sig, false, if comp { ".gz" } else { "" }, Case::Upper, r);
    let data = if comp { tarw::gz(&archive, 6) } else { archive };
    let mut files = bworld::Files::new();
    files.insert(f.text.into_bytes(), Arc::new(data));
    let b = bworld::open(Mem::new(&files))?;
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == 1, "{} snapshots, expected one", ss.len());
    let got: BTreeMap<Key, model::Ent> = bworld::entries_of(&ss[0])?
        .into_iter()
        .map(|e| (key(&e.path), e))
        .collect();
    for (k, (w, what)) in &want {
        let e = match got.get(k) {
            Some(e) => e,
            None => return Err(format!("{} is not listed ({})", esc(&k[0]), what)),
        };
        let mut h = Fnv::new();
        h.add(what.as_bytes());
        match *w {
            Want::File(len, block) => {
                counts.push(("signatures of known files", 1));
                hashes.push(h.0);
                match e.size {
                    None => return Err(format!("{}: the size is unknown", what)),
                    Some((lo, hi)) => {
                        let (lo, hi) = (lo as u64, hi as u64);
                        ensure!(
                            lo <= len && len <= hi,
                            "{}: bounds {}..{} do not enclose {}",
                            what,
                            lo,
                            hi,
                            len
                        );
                        ensure!(hi - lo <= block, "{}: bounds {}..{} are wider than a block", what, lo, hi);
                    }
                }
            }
            Want::Exact(len) => {
                counts.push(("plain snapshots", 1));
                hashes.push(h.0);
                ensure!(
                    e.size == Some((len as usize, len as usize)),
                    "{}: size {:?}, expected {}",
                    what,
                    e.size,
                    len
                );
            }
            Want::Unknown => {
                counts.push(("must be unknown", 1));
                hashes.push(h.0);
                ensure!(e.size.is_none(), "{}: size {:?}, expected unknown", what, e.size);
            }
            Want::Any => {
                if let Some((lo, hi)) = e.size {
                    ensure!(lo <= hi, "{}: bounds {}..{}", what, lo, hi);
                }
            }
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} entries, expected {}", got.len(), want.len()));
    }
    for (n, v) in counts {
        c.count(n, v);
    }
    for h in hashes {
        c.distinct(h);
    }
    if huge && want.is_empty() {
        hbug!("nothing to check");
    }
    let _ = Num::Octal;
    c.sample(|| format!("{:?}", want.values().take(5).collect::<Vec<_>>()));
    Ok(())
}
