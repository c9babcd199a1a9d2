//! Whole backup directories: names, archives, manifests, and what must be reported for them.

use crate::be::Mem;
use crate::ensure;
use crate::manif::{self, Man, Style};
use crate::model::{self, Ent, Replay};
use crate::names::{self, FName, Id, MSet, Part};
use crate::tarw::{self, Enc, Eof, Rec};
use crate::util::Rng;
use crate::world::{self, Cfg};
use ruplicity::{Backend, Backup, Snapshot};
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Files = BTreeMap<Vec<u8>, Arc<Vec<u8>>>;

#[derive(Clone)]
pub struct BWorld {
    pub names: Vec<FName>,
    pub files: Files,
    pub recs: BTreeMap<Id, Vec<Rec>>,
    pub mans: BTreeMap<Id, Man>,
}

#[derive(Clone)]
pub struct WCfg {
    pub chains: usize,
    pub snaps: usize,
    pub fs: Cfg,
    pub wild: bool,
    pub plain_enc: bool,
    pub manifests: bool,
    pub overlap: bool,
}

impl WCfg {
    pub fn normal() -> WCfg {
        WCfg {
            chains: 3,
            snaps: 4,
            fs: Cfg::normal(),
            wild: false,
            plain_enc: false,
            manifests: true,
            overlap: true,
        }
    }
    pub fn tame() -> WCfg {
        WCfg {
            fs: Cfg::tame(),
            plain_enc: true,
            ..WCfg::normal()
        }
    }
}

/// The bytes of a signature file with the given records.
pub fn encode(recs: &[Rec], comp: bool, plain: bool, r: &mut Rng) -> Vec<u8> {
    let style = r.below(3);
    let one = Enc::random(r);
    let end = *r.pick(&[Eof::Two, Eof::Two, Eof::Record, Eof::One, Eof::None]);
    let mut rr = r.fork();
    let (tar, _) = tarw::write_tar(recs, if plain { Eof::Record } else { end }, |_| {
        if plain || style == 0 {
            Enc {
                slash: true,
                ..Enc::plain()
            }
        } else if style == 1 {
            one
        } else {
            Enc::random(&mut rr)
        }
    });
    if comp {
        if plain || r.bool() {
            let level = if plain { 6 } else { *r.pick(&[0, 1, 6, 9]) };
            tarw::gz(&tar, level)
        } else {
            tarw::gz_multi(&tar, r)
        }
    } else {
        tar
    }
}

pub fn build(r: &mut Rng, cfg: &WCfg) -> BWorld {
    let nch = 1 + r.usize(cfg.chains);
    let nch = r.count(nch, 60);
    // sizes of the chains, then the order in which their snapshots are taken
    let sizes: Vec<usize> = (0..nch)
        .map(|_| {
            let n = 1 + r.usize(cfg.snaps);
            if nch < 6 { r.count(n, 130) } else { n }
        })
        .collect();
    let mut order: Vec<usize> = Vec::new();
    for (c, n) in sizes.iter().enumerate() {
        for _ in 0..*n {
            order.push(c);
        }
    }
    if cfg.overlap && r.chance(1, 3) {
        r.shuffle(&mut order);
    }
    let ts = names::instants(r, order.len());
    let mut ids: Vec<Vec<Id>> = vec![Vec::new(); nch];
    for (c, t) in order.iter().zip(&ts) {
        let id = match ids[*c].last() {
            None => (false, *t, *t),
            Some(l) => (true, l.2, *t),
        };
        ids[*c].push(id);
    }
    let mut w = BWorld {
        names: Vec::new(),
        files: Files::new(),
        recs: BTreeMap::new(),
        mans: BTreeMap::new(),
    };
    for c in 0..nch {
        let h = if cfg.wild && r.chance(1, 3) {
            world::wild_history(r, sizes[c], &cfg.fs)
        } else {
            world::history(r, sizes[c], ids[c][0].1, &cfg.fs)
        };
        for (i, id) in ids[c].iter().enumerate() {
            let paths: Vec<Vec<u8>> = h.expect[i].iter().map(|e| e.path.clone()).collect();
            let man = if cfg.manifests {
                let mut m = manif::random_man(r, 0);
                m.vols = manif::volumes_over(&paths, r);
                for v in &mut m.vols {
                    if v.start.is_empty() {
                        v.start = b".".to_vec();
                    }
                    if v.end.is_empty() {
                        v.end = b".".to_vec();
                    }
                }
                m
            } else {
                manif::random_man(r, 0)
            };
            w.add_set(*id, h.recs[i].clone(), man, cfg, r);
        }
    }
    w
}

impl BWorld {
    pub fn add_set(&mut self, id: Id, recs: Vec<Rec>, man: Man, cfg: &WCfg, r: &mut Rng) {
        let comp = r.chance(2, 3);
        let sfx = match comp {
            true if r.chance(1, 4) => ".z",
            true => ".gz",
            false => "",
        };
        let case = match r.below(16) {
            _ if cfg.plain_enc => names::Case::Upper,
            0 | 1 => names::Case::Lower,
            2 => names::Case::AllUpper,
            3 => names::Case::AllMixed,
            _ => names::Case::Upper,
        };
        let f = names::make(id, Part::Sig, r.chance(1, 10), sfx, case, r);
        self.files
            .insert(f.text.clone().into_bytes(), Arc::new(encode(&recs, comp, cfg.plain_enc, r)));
        self.names.push(f);
        let f = names::make(id, Part::Man, r.chance(1, 10), "", case, r);
        let st = if cfg.plain_enc {
            Style::plain()
        } else {
            Style::random(r)
        };
        self.files
            .insert(f.text.clone().into_bytes(), Arc::new(manif::write(&man, &st, r)));
        self.names.push(f);
        for n in 1..=man.vols.len().max(1) as u64 {
            let f = names::make(id, Part::Vol(n), false, ".gz", case, r);
            self.files
                .insert(f.text.clone().into_bytes(), Arc::new(b"volume".to_vec()));
            self.names.push(f);
        }
        self.recs.insert(id, recs);
        self.mans.insert(id, man);
    }

    pub fn expected(&self) -> Vec<XSnap> {
        expected(&self.names, &self.recs, &self.mans)
    }

    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (n, d) in &self.files {
            s.push_str(&format!("{} ({} bytes)\n", crate::util::esc(n), d.len()));
        }
        for (id, rs) in &self.recs {
            s.push_str(&format!("set {:?}\n", id));
            for x in rs {
                s.push_str(&format!(
                    "  {:?} {} type {} mtime {} uid {} {} gid {} {} mode {:o} link {} body {}\n",
                    x.kind,
                    crate::util::esc(&x.path),
                    x.typ as char,
                    x.mtime,
                    x.uid,
                    crate::util::esc(&x.uname),
                    x.gid,
                    crate::util::esc(&x.gname),
                    x.mode,
                    crate::util::esc(&x.link),
                    x.body.len()
                ));
            }
        }
        s
    }

    pub fn hash(&self) -> u64 {
        let mut f = crate::util::Fnv::new();
        for (n, d) in &self.files {
            f.add(n);
            f.add(d);
        }
        f.0
    }
}

/// What must be reported for one snapshot.
#[derive(Clone, Debug)]
pub struct XSnap {
    pub set: MSet,
    pub chain: usize,
    pub entries: Option<Vec<Ent>>,
    pub manifest: Option<Man>,
    /// the signature files that may be opened for it
    pub sig_files: Vec<String>,
}

pub fn expected(names: &[FName], recs: &BTreeMap<Id, Vec<Rec>>, mans: &BTreeMap<Id, Man>) -> Vec<XSnap> {
    let m = names::model(names);
    let mut out = Vec::new();
    for (ci, c) in m.chains.iter().enumerate() {
        let mut rp = Replay::default();
        let mut ok = true;
        let sigs: Vec<String> = c
            .sets
            .iter()
            .filter_map(|s| s.sig.as_ref().map(|f| f.text.clone()))
            .collect();
        for s in &c.sets {
            ok = ok && s.sig.as_ref().map_or(false, |f| !f.enc);
            if ok {
                if let Some(rs) = recs.get(&s.id) {
                    rp.apply(rs);
                }
            }
            out.push(XSnap {
                set: s.clone(),
                chain: ci,
                entries: if ok { Some(rp.list()) } else { None },
                manifest: match s.man {
                    Some(ref f) if !f.enc => mans.get(&s.id).cloned(),
                    _ => None,
                },
                sig_files: sigs.clone(),
            });
        }
    }
    out
}

pub fn open<B: Backend>(b: B) -> Result<Backup<B>, String> {
    Backup::new(b).map_err(|e| format!("Backup::new failed: {}", e))
}

pub fn snaps<B: Backend>(b: &Backup<B>) -> Result<Vec<Snapshot>, String> {
    let s = b.snapshots().map_err(|e| format!("snapshots() failed: {}", e))?;
    let v: Vec<Snapshot> = s.into_iter().take(100_000).collect();
    Ok(v)
}

pub fn entries_of(s: &Snapshot) -> Result<Vec<Ent>, String> {
    let e = s.entries().map_err(|e| format!("entries() failed: {}", e))?;
    model::listing(e.as_signature(), model::CAP)
}

/// Compares the attributes of a snapshot.
pub fn check_snap(s: &Snapshot, x: &XSnap) -> Result<(), String> {
    ensure!(
        s.time().sec == x.set.end() && s.time().nsec == 0,
        "time {} expected {}",
        s.time().sec,
        x.set.end()
    );
    ensure!(
        s.is_full() == !x.set.inc() && s.is_incremental() == x.set.inc(),
        "kind of the snapshot"
    );
    ensure!(
        s.num_volumes() == x.set.vols.len(),
        "num_volumes {} expected {}",
        s.num_volumes(),
        x.set.vols.len()
    );
    names::check_set_times(s.as_backup_set(), &x.set)
}

pub fn check_entries(s: &Snapshot, x: &XSnap, sizes: bool) -> Result<usize, String> {
    match (s.entries(), &x.entries) {
        (Ok(e), Some(want)) => {
            let got = model::listing(e.as_signature(), model::CAP)?;
            model::diff(&got, want, sizes)?;
            Ok(got.len())
        }
        (Err(_), None) => Ok(0),
        (Err(e), Some(_)) => Err(format!("entries() failed: {}", e)),
        (Ok(e), None) => Err(format!(
            "entries() succeeded with {} entries, but the files needed are absent or encrypted",
            e.as_signature().count()
        )),
    }
}

pub fn check_manifest(s: &Snapshot, x: &XSnap) -> Result<(), String> {
    match (s.manifest(), &x.manifest) {
        (Ok(m), Some(want)) => manif::compare(&m, want),
        (Err(_), None) => Ok(()),
        (Err(e), Some(_)) => Err(format!("manifest() failed: {}", e)),
        (Ok(_), None) => Err("manifest() succeeded, but there is no readable manifest".into()),
    }
}

/// Everything about every snapshot. Returns the number of entries compared.
pub fn check_all<B: Backend>(b: &Backup<B>, xs: &[XSnap], sizes: bool) -> Result<usize, String> {
    let ss = snaps(b)?;
    ensure!(
        ss.len() == xs.len(),
        "{} snapshots, expected {}",
        ss.len(),
        xs.len()
    );
    let mut n = 0;
    for (i, (s, x)) in ss.iter().zip(xs).enumerate() {
        let at = |e: String| format!("snapshot {}: {}", i, e);
        check_snap(s, x).map_err(at)?;
        n += check_entries(s, x, sizes).map_err(at)?;
        check_manifest(s, x).map_err(at)?;
    }
    Ok(n)
}

pub fn mem(w: &BWorld) -> Mem {
    Mem::new(&w.files)
}
