//! File-system histories, and what duplicity would record of them.

use crate::dict;
use crate::hbug;
use crate::model::{key, Key, Replay};
use crate::tarw::{rsync_sig, Kind, Rec};
use crate::util::Rng;
use std::collections::BTreeMap;

/// Path components that collide around the separator and outside of UTF-8.
pub fn component(r: &mut Rng, text: bool) -> Vec<u8> {
    let tricky: &[u8] = if text {
        b" !#+-.0Aabz~_$%&'()"
    } else {
        &[
            0x01, 0x09, 0x0a, 0x1f, b' ', b'!', b'"', b'-', b'.', b'0', b'A', b'\\', b'a', b'b',
            0x7f, 0x80, 0xc3, 0xe9, 0xff,
        ]
    };
    loop {
        let mut v: Vec<u8> = Vec::new();
        match r.below(20) {
            _ if dict::get().strs.len() + dict::get().ints.len() > 0 && r.below(12) == 0 => {
                // what a change of the library made special
                if let Some(t) = r.special_text(2) {
                    v.extend(t);
                    if text {
                        v.retain(|b| (b' '..0x7f).contains(b));
                    }
                } else {
                    let n = r.count(3, 255);
                    for _ in 0..n {
                        v.push(*r.pick(b"abc"));
                    }
                }
                v.truncate(255);
            }
            0 => {
                // long names
                let n = 80 + r.usize(200);
                for _ in 0..n {
                    v.push(*r.pick(tricky));
                }
                if n > 255 {
                    v.truncate(255);
                }
            }
            1 => v.extend_from_slice("d\u{e9}j\u{e0}-\u{4f60}\u{597d}".as_bytes()),
            2 => {
                for _ in 0..1 + r.usize(12) {
                    v.push(b'a' + r.usize(26) as u8);
                }
            }
            3..=9 => {
                // words of a tiny alphabet, so that names are prefixes of each other
                for _ in 0..1 + r.usize(3) {
                    v.push(*r.pick(b"ab"));
                }
                if r.bool() {
                    v.push(*r.pick(tricky));
                    if r.bool() {
                        v.push(*r.pick(b"ab"));
                    }
                }
            }
            _ => {
                for _ in 0..1 + r.usize(3) {
                    v.push(*r.pick(tricky));
                }
            }
        }
        v.retain(|b| *b != 0 && *b != b'/');
        if !v.is_empty() && v != b"." && v != b".." {
            return v;
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub typ: u8,
    pub mtime: i64,
    pub uid: u64,
    pub gid: u64,
    pub mode: u32,
    pub link: Vec<u8>,
    pub size: u64,
    pub ver: u64,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub ops: usize,
    pub max_nodes: usize,
    /// printable ASCII-ish names only
    pub text: bool,
    /// modification times and ids as a sane system has them
    pub sane: bool,
    pub noise: bool,
    /// keep bodies short
    pub small_bodies: bool,
}

impl Cfg {
    pub fn normal() -> Cfg {
        Cfg {
            ops: 12,
            max_nodes: 40,
            text: false,
            sane: false,
            noise: true,
            small_bodies: true,
        }
    }
    pub fn tame() -> Cfg {
        Cfg {
            ops: 8,
            max_nodes: 20,
            text: true,
            sane: true,
            noise: false,
            small_bodies: true,
        }
    }
}

/// A file system that evolves.
pub struct Fs {
    pub nodes: BTreeMap<Key, Node>,
    pub prev: BTreeMap<Key, Node>,
    pub now: i64,
    unames: BTreeMap<u64, Vec<u8>>,
    gnames: BTreeMap<u64, Vec<u8>>,
    ver: u64,
}

fn names_pool(r: &mut Rng, sane: bool) -> Vec<u8> {
    if let Some(mut t) = r.special_text(8) {
        t.retain(|b| *b >= b' ' && *b < 0x7f);
        t.truncate(31);
        if !t.is_empty() {
            return t;
        }
    }
    let pool: &[&[u8]] = &[
        b"root", b"rood", b"michele", b"michela", b"www-data", b"staff", b"staph", b"nobody", b"x", b"y",
        b"a-name-of-thirty-two-characters-",
    ];
    let wild: &[&[u8]] = &[b"", b"caf\xc3\xa9", b"\xff\xfe", b"with space", b"1000", b"?"];
    if sane || !r.chance(1, 5) {
        r.pick(pool).to_vec()
    } else {
        r.pick(wild).to_vec()
    }
}

/// Types of members without a meaning for duplicity (and without one for the tar reader).
const ODD_TYPES: &[u8] = b"13479ABENVXZaz~\x01\x80\xff";

pub fn root_key() -> Key {
    vec![vec![]]
}

impl Fs {
    pub fn new(r: &mut Rng, now: i64, cfg: &Cfg) -> Fs {
        let mut fs = Fs {
            nodes: BTreeMap::new(),
            prev: BTreeMap::new(),
            now,
            unames: BTreeMap::new(),
            gnames: BTreeMap::new(),
            ver: 0,
        };
        for id in [0u64, 1, 1000, 1001, 65534] {
            let n = names_pool(r, cfg.sane);
            fs.unames.insert(id, n);
            let n = names_pool(r, cfg.sane);
            fs.gnames.insert(id, n);
        }
        let root = fs.node(r, b'5', cfg);
        fs.nodes.insert(root_key(), root);
        fs
    }

    fn id(&mut self, r: &mut Rng, cfg: &Cfg) -> u64 {
        if cfg.sane || !r.chance(1, 8) {
            *r.pick(&[0u64, 1, 1000, 1001, 65534])
        } else {
            let id = r.wild() >> 2;
            for m in [true, false] {
                let n = names_pool(r, false);
                if m {
                    self.unames.entry(id).or_insert(n);
                } else {
                    self.gnames.entry(id).or_insert(n);
                }
            }
            id
        }
    }

    fn node(&mut self, r: &mut Rng, typ: u8, cfg: &Cfg) -> Node {
        self.ver += 1;
        let mtime = if cfg.sane {
            self.now - r.range(0, 400 * 86400)
        } else {
            match r.below(12) {
                0 => 0,
                1 => -(r.range(1, 4_000_000_000)),
                2 => r.range(8_589_934_590, 8_589_934_593),
                3 => r.range(0, 1 << 40),
                4 => r.next() as i64,
                _ => self.now - r.range(0, 1 << 30),
            }
        };
        let uid = self.id(r, cfg);
        let gid = self.id(r, cfg);
        Node {
            typ,
            mtime,
            uid,
            gid,
            mode: if cfg.sane {
                *r.pick(&[0o644u32, 0o755, 0o600, 0o777, 0o4755, 0o1777])
            } else {
                r.below(0o10000) as u32
            },
            link: if typ == b'2' {
                let n = 1 + r.usize(3);
                let mut v: Vec<u8> = Vec::new();
                if r.chance(1, 3) {
                    v.push(b'/');
                }
                for i in 0..n {
                    if i > 0 {
                        v.push(b'/');
                    }
                    v.extend(component(r, cfg.text));
                }
                v
            } else {
                vec![]
            },
            size: r.below(100_000),
            ver: self.ver,
        }
    }

    fn some_path(&self, r: &mut Rng) -> Key {
        let i = r.usize(self.nodes.len());
        match self.nodes.keys().nth(i) {
            Some(k) => k.clone(),
            None => root_key(),
        }
    }

    pub fn remove_tree(&mut self, k: &Key) {
        let gone: Vec<Key> = self
            .nodes
            .keys()
            .filter(|x| x.len() >= k.len() && x[..k.len()] == k[..])
            .cloned()
            .collect();
        for g in gone {
            self.nodes.remove(&g);
        }
    }

    fn child_of(&self, r: &mut Rng, dir: &Key, cfg: &Cfg) -> Key {
        let mut k = if *dir == root_key() { vec![] } else { dir.clone() };
        // sometimes extend the name of a sibling: x -> x-b, which must not sort below x/
        let mut comp = component(r, cfg.text);
        if r.chance(1, 3) {
            let sib: Vec<&Key> = self
                .nodes
                .keys()
                .filter(|x| x.len() == k.len() + 1 && x[..k.len()] == k[..] && !x[k.len()].is_empty())
                .collect();
            if !sib.is_empty() {
                let mut s = r.pick(&sib)[k.len()].clone();
                if s.len() < 200 {
                    s.push(*r.pick(if cfg.text { b" -.!0a" } else { b"\x01 -.!0a" }));
                    if r.bool() {
                        s.extend(comp.iter().take(4));
                    }
                    comp = s;
                }
            }
        }
        k.push(comp);
        k
    }

    pub fn mutate(&mut self, r: &mut Rng, cfg: &Cfg) {
        let what = r.below(14);
        match what {
            0..=4 => {
                // create
                if self.nodes.len() >= cfg.max_nodes {
                    return;
                }
                let dirs: Vec<Key> = self
                    .nodes
                    .iter()
                    .filter(|(_, n)| n.typ == b'5')
                    .map(|(k, _)| k.clone())
                    .collect();
                let d = r.pick(&dirs).clone();
                if d.len() > 8 {
                    return;
                }
                let k = self.child_of(r, &d, cfg);
                if self.nodes.contains_key(&k) {
                    return;
                }
                let t = *r.pick(if cfg.sane {
                    b"0000555526"
                } else {
                    b"0000555264013"
                });
                let t = if !cfg.sane && r.chance(1, 40) {
                    *r.pick(ODD_TYPES)
                } else {
                    t
                };
                let n = self.node(r, t, cfg);
                self.nodes.insert(k, n);
            }
            5 | 6 => {
                // change the contents or the attributes
                let k = self.some_path(r);
                let t = self.nodes[&k].typ;
                let n = self.node(r, t, cfg);
                self.nodes.insert(k, n);
            }
            7 | 8 => {
                let k = self.some_path(r);
                if k != root_key() {
                    self.remove_tree(&k);
                }
            }
            9 => {
                // change type
                let k = self.some_path(r);
                if k == root_key() {
                    return;
                }
                self.remove_tree(&k);
                let t = *r.pick(b"0526");
                let n = self.node(r, t, cfg);
                self.nodes.insert(k, n);
            }
            10 => {
                // re-create something that existed before
                let gone: Vec<Key> = self
                    .prev
                    .keys()
                    .filter(|k| !self.nodes.contains_key(*k))
                    .cloned()
                    .collect();
                if let Some(k) = gone.first() {
                    let parent = if k.len() == 1 {
                        root_key()
                    } else {
                        k[..k.len() - 1].to_vec()
                    };
                    if self.nodes.get(&parent).map_or(false, |n| n.typ == b'5') {
                        let n = self.node(r, b'0', cfg);
                        self.nodes.insert(k.clone(), n);
                    }
                }
            }
            11 => {
                // a user is renamed: every record made from now on carries the new name
                let id = *r.pick(&[0u64, 1, 1000, 1001, 65534]);
                let n = names_pool(r, cfg.sane);
                if r.bool() {
                    self.unames.insert(id, n);
                } else {
                    self.gnames.insert(id, n);
                }
            }
            12 => {
                // owners exchanged
                let k = self.some_path(r);
                if let Some(n) = self.nodes.get_mut(&k) {
                    std::mem::swap(&mut n.uid, &mut n.gid);
                    n.ver += 1_000_000;
                }
            }
            _ => {
                // empty a folder
                let k = self.some_path(r);
                let kids: Vec<Key> = self
                    .nodes
                    .keys()
                    .filter(|x| x.len() == k.len() + 1 && x[..k.len()] == k[..])
                    .cloned()
                    .collect();
                for c in kids {
                    self.remove_tree(&c);
                }
            }
        }
    }

    fn rec(&mut self, r: &mut Rng, kind: Kind, k: &Key, n: Option<&Node>, cfg: &Cfg) -> Rec {
        let path = k.join(&b'/');
        match n {
            None => Rec {
                kind,
                path,
                // the record of a deleted folder may be a folder itself
                typ: *r.pick(b"005"),
                mtime: 0,
                uid: 0,
                gid: 0,
                uname: vec![],
                gname: vec![],
                mode: 0o644,
                link: vec![],
                body: vec![],
            },
            Some(n) => {
                let body = match (kind, n.typ) {
                    (Kind::Sig, b'0') => {
                        let block = 1 + r.below(4096) as u32;
                        let nb = if cfg.small_bodies {
                            r.usize(4)
                        } else {
                            r.usize(40)
                        };
                        rsync_sig(0x7273_0136, block, 8, nb, 0, r)
                    }
                    (Kind::Snap, b'0') => {
                        let n = if cfg.small_bodies { 40 } else { 3000 };
                        let n = r.usize(n);
                        r.bytes(n)
                    }
                    _ => vec![],
                };
                Rec {
                    kind,
                    path,
                    typ: n.typ,
                    mtime: n.mtime,
                    uid: n.uid,
                    gid: n.gid,
                    uname: self.unames.get(&n.uid).cloned().unwrap_or_default(),
                    gname: self.gnames.get(&n.gid).cloned().unwrap_or_default(),
                    mode: n.mode,
                    link: n.link.clone(),
                    body,
                }
            }
        }
    }

    /// The records of a snapshot taken now, in path order.
    pub fn snapshot(&mut self, r: &mut Rng, full: bool, cfg: &Cfg) -> Vec<Rec> {
        if full {
            self.prev.clear();
        }
        let mut keys: Vec<Key> = self.nodes.keys().chain(self.prev.keys()).cloned().collect();
        keys.sort();
        keys.dedup();
        let mut recs = Vec::new();
        for k in keys {
            let new = self.nodes.get(&k).cloned();
            let old = self.prev.get(&k).cloned();
            match (new, old) {
                (Some(n), o) => {
                    let same = o.as_ref() == Some(&n);
                    // unchanged entries are not recorded (the root is, sometimes)
                    if same && !(k == root_key() && r.bool()) && !r.chance(1, 30) {
                        continue;
                    }
                    let kind = if n.typ == b'0' {
                        if r.chance(1, 6) {
                            Kind::Snap
                        } else {
                            Kind::Sig
                        }
                    } else if r.chance(1, 12) {
                        Kind::Sig
                    } else {
                        Kind::Snap
                    };
                    let rec = self.rec(r, kind, &k, Some(&n), cfg);
                    recs.push(rec);
                }
                (None, Some(_)) => {
                    let rec = self.rec(r, Kind::Del, &k, None, cfg);
                    recs.push(rec);
                }
                (None, None) => (),
            }
            if cfg.noise && r.chance(1, 20) {
                recs.push(noise(r));
            }
        }
        self.prev = self.nodes.clone();
        recs
    }

    /// The replay model must agree with the simulated state: otherwise the generator is wrong.
    pub fn check(&self, rp: &Replay) {
        let a: Vec<&Key> = self.nodes.keys().collect();
        let b: Vec<&Key> = rp.0.keys().collect();
        if a != b {
            hbug!("simulation and replay disagree: {:?} {:?}", a, b);
        }
        for (k, n) in &self.nodes {
            let e = &rp.0[k];
            if e.mtime.0 != n.mtime || e.uid != Some(n.uid) || e.mode != Some(n.mode) {
                hbug!("simulation and replay disagree on {:?}", k);
            }
        }
    }
}

/// A member outside the three folders.
pub fn noise(r: &mut Rng) -> Rec {
    let tail = component(r, true);
    let mut path = r
        .pick(&[
            "multivol_snapshot/",
            "multivol_diff/",
            "diff/",
            "signatures/",
            "Signature/",
            "snapshots/",
            "snapshotx/",
            "delete/",
            "deleted2/",
            "sig/signature/",
            "./snapshot/",
            "/snapshot/",
            "SNAPSHOT/",
            " snapshot/",
            "other",
            "signature",
            "deleted",
            "x/deleted/",
        ])
        .as_bytes()
        .to_vec();
    if path.ends_with(b"/") {
        path.extend(tail);
    }
    Rec {
        kind: Kind::Noise,
        path,
        typ: *r.pick(b"0052"),
        mtime: 77,
        uid: 7,
        gid: 7,
        uname: b"noise".to_vec(),
        gname: b"noise".to_vec(),
        mode: 0o600,
        link: vec![],
        body: {
            let n = r.usize(20);
            r.bytes(n)
        },
    }
}

/// A whole history of one chain: the records of each snapshot and the expected listings.
pub struct History {
    pub recs: Vec<Vec<Rec>>,
    pub expect: Vec<Vec<crate::model::Ent>>,
}

pub fn history(r: &mut Rng, snaps: usize, start: i64, cfg: &Cfg) -> History {
    let mut fs = Fs::new(r, start, cfg);
    let mut rp = Replay::default();
    let mut recs = Vec::new();
    let mut expect = Vec::new();
    let nodes = if snaps < 20 { r.count(0, 3000) } else { 0 };
    let cfg = &Cfg {
        ops: cfg.ops.max(nodes),
        max_nodes: cfg.max_nodes.max(nodes * 2),
        ..cfg.clone()
    };
    for i in 0..snaps {
        let n = if i == 0 {
            cfg.ops * 2
        } else {
            r.usize(cfg.ops + 1)
        };
        for _ in 0..n {
            fs.mutate(r, cfg);
        }
        let rs = fs.snapshot(r, i == 0, cfg);
        rp.apply(&rs);
        fs.check(&rp);
        expect.push(rp.list());
        recs.push(rs);
        fs.now += 3600;
    }
    History { recs, expect }
}

/// A history that is not one of a sane file system: records in any order, repeated, for paths
/// without parents, deletions of what never existed.
pub fn wild_history(r: &mut Rng, snaps: usize, cfg: &Cfg) -> History {
    let mut pool: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..3 + r.usize(12) {
        let base = r.pick(&pool).clone();
        let mut p = base;
        if !p.is_empty() {
            p.push(b'/');
        }
        if !cfg.text && r.chance(1, 12) {
            // components that no backup records, but that are components all the same
            p.extend(*r.pick(&[&b""[..], b".", b".."]));
            p.push(b'/');
        }
        p.extend(component(r, cfg.text));
        pool.push(p);
    }
    let mut fs = Fs::new(r, 1_500_000_000, cfg);
    let mut rp = Replay::default();
    let mut recs = Vec::new();
    let mut expect = Vec::new();
    let sorted = r.bool();
    let unique = r.bool();
    for _ in 0..snaps {
        let n = r.usize(pool.len() * 2);
        let mut rs: Vec<Rec> = Vec::new();
        for _ in 0..n {
            let p = r.pick(&pool).clone();
            let k = key(&p);
            let kind = *r.pick(&[Kind::Sig, Kind::Snap, Kind::Snap, Kind::Del]);
            let t = if r.chance(1, 12) {
                *r.pick(ODD_TYPES)
            } else {
                *r.pick(b"00526")
            };
            let node = fs.node(r, t, cfg);
            let rec = if kind == Kind::Del {
                fs.rec(r, kind, &k, None, cfg)
            } else {
                fs.rec(r, kind, &k, Some(&node), cfg)
            };
            if r.chance(1, 10) {
                rs.push(noise(r));
            }
            rs.push(rec);
        }
        if sorted {
            rs.sort_by(|a, b| key(&a.path).cmp(&key(&b.path)));
        }
        if unique {
            let mut seen = std::collections::BTreeSet::new();
            rs.retain(|x| x.kind == Kind::Noise || seen.insert(x.path.clone()));
        }
        rp.apply(&rs);
        expect.push(rp.list());
        recs.push(rs);
    }
    History { recs, expect }
}
