//! The replay oracle, and the view of what the library reports.

use crate::tarw::{Kind, Rec};
use crate::util::esc;
use ruplicity::signatures::{self, EntryType};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;

/// One listed entry, as an owned value.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ent {
    pub path: Vec<u8>,
    pub typ: String,
    pub mtime: (i64, i32),
    pub uid: Option<u64>,
    pub gid: Option<u64>,
    pub uname: Option<String>,
    pub gname: Option<String>,
    pub mode: Option<u32>,
    pub size: Option<(usize, usize)>,
    pub link: Option<Vec<u8>>,
}

impl Ent {
    pub fn show(&self) -> String {
        format!(
            "{{{} {} t={} uid={:?}/{:?} gid={:?}/{:?} mode={:?} size={:?} link={:?}}}",
            esc(&self.path),
            self.typ,
            self.mtime.0,
            self.uid,
            self.uname,
            self.gid,
            self.gname,
            self.mode.map(|m| format!("{:o}", m)),
            self.size,
            self.link.as_ref().map(|l| esc(l))
        )
    }
}

pub fn type_name(t: EntryType) -> String {
    match t {
        EntryType::File => "file".into(),
        EntryType::Dir => "dir".into(),
        EntryType::HardLink => "hardlink".into(),
        EntryType::SymLink => "symlink".into(),
        EntryType::Fifo => "fifo".into(),
        EntryType::Unknown(b) => format!("unknown({})", b),
    }
}

pub fn ent_of(e: &signatures::Entry) -> Ent {
    let t = e.mtime();
    let typ = type_name(e.entry_type());
    Ent {
        path: e.path_bytes().to_vec(),
        mtime: (t.sec, t.nsec),
        uid: e.userid(),
        gid: e.groupid(),
        uname: e.username().map(|s| s.to_owned()),
        gname: e.groupname().map(|s| s.to_owned()),
        mode: e.mode(),
        size: e.size_hint(),
        link: e.linked_path().map(|p| p.as_os_str().as_bytes().to_vec()),
        typ,
    }
}

/// Everything an iterator of entries gives. `cap` guards against endless iterators.
pub fn listing(it: signatures::SnapshotEntries, cap: usize) -> Result<Vec<Ent>, String> {
    let mut v = Vec::new();
    for e in it {
        if v.len() > cap {
            return Err(format!("the listing has more than {} entries", cap));
        }
        // the two ways to ask the path must agree
        match e.path() {
            Some(p) if p.as_os_str().as_bytes() == e.path_bytes() => (),
            p => {
                return Err(format!(
                    "path() {:?} differs from path_bytes() {}",
                    p,
                    esc(e.path_bytes())
                ))
            }
        }
        v.push(ent_of(&e));
    }
    Ok(v)
}

pub const CAP: usize = 2_000_000;

/// What the library must report for the last record of a path.
pub fn expect_ent(r: &Rec) -> Ent {
    let name = |b: &Vec<u8>| -> Option<String> {
        let end = b.iter().take(32).position(|c| *c == 0).unwrap_or(b.len().min(32));
        String::from_utf8(b[..end].to_vec()).ok()
    };
    let typ = match r.typ {
        0 | b'0' => "file".to_owned(),
        b'1' => "hardlink".to_owned(),
        b'2' => "symlink".to_owned(),
        b'5' => "dir".to_owned(),
        b'6' => "fifo".to_owned(),
        b => format!("unknown({})", b),
    };
    Ent {
        path: r.path.clone(),
        mtime: (r.mtime, 0),
        uid: Some(r.uid),
        gid: Some(r.gid),
        uname: name(&r.uname),
        gname: name(&r.gname),
        mode: Some(r.mode),
        size: expect_size(r.kind, &r.body, r.body.len() as u64),
        link: if r.typ == b'2' && !r.link.is_empty() {
            Some(r.link.clone())
        } else {
            None
        },
        typ,
    }
}

/// Size bounds: the oracle of P03. `declared` is the size of the member as declared by the
/// archive, `body` the bytes of it that are really there (possibly fewer).
pub fn expect_size(kind: Kind, body: &[u8], declared: u64) -> Option<(usize, usize)> {
    match kind {
        Kind::Snap => usize::try_from(declared).ok().map(|n| (n, n)),
        Kind::Sig => {
            if body.len() < 12 || declared < 12 {
                return None;
            }
            let be = |i: usize| -> u128 {
                body[i..i + 4].iter().fold(0u128, |a, b| a << 8 | *b as u128)
            };
            if be(0) != 0x7273_0136 {
                return None;
            }
            let (block, strong) = (be(4), be(8));
            let blocks = (declared as u128 - 12) / (4 + strong);
            let max = block * blocks;
            let min = if blocks > 1 && block > 0 {
                block * (blocks - 1) + 1
            } else {
                0
            };
            if max > usize::MAX as u128 {
                return None;
            }
            Some((min as usize, max as usize))
        }
        _ => None,
    }
}

pub type Key = Vec<Vec<u8>>;

/// Path order: component by component.
pub fn key(path: &[u8]) -> Key {
    let mut v = Vec::new();
    let mut cur = Vec::new();
    for &b in path {
        if b == b'/' {
            v.push(std::mem::replace(&mut cur, Vec::new()));
        } else {
            cur.push(b);
        }
    }
    v.push(cur);
    v
}

/// The state of a file system as told by the records.
#[derive(Clone, Default)]
pub struct Replay(pub BTreeMap<Key, Ent>);

impl Replay {
    pub fn apply(&mut self, recs: &[Rec]) {
        for r in recs {
            match r.kind {
                Kind::Noise => (),
                Kind::Del => {
                    self.0.remove(&key(&r.path));
                }
                Kind::Sig | Kind::Snap => {
                    self.0.insert(key(&r.path), expect_ent(r));
                }
            }
        }
    }
    pub fn list(&self) -> Vec<Ent> {
        self.0.values().cloned().collect()
    }
}

pub fn diff(got: &[Ent], want: &[Ent], sizes: bool) -> Result<(), String> {
    let n = got.len().min(want.len());
    for i in 0..n {
        let mut g = got[i].clone();
        if !sizes {
            g.size = want[i].size;
        }
        if g != want[i] {
            return Err(format!(
                "entry {} of {} (expected {}): got {} expected {}",
                i,
                got.len(),
                want.len(),
                got[i].show(),
                want[i].show()
            ));
        }
    }
    if got.len() > n {
        return Err(format!(
            "{} surplus entries, the first is {}",
            got.len() - n,
            got[n].show()
        ));
    }
    if want.len() > n {
        return Err(format!(
            "{} missing entries, the first is {}",
            want.len() - n,
            want[n].show()
        ));
    }
    Ok(())
}
