//! P26: a directory that changes while backups are open, and between openings.
//!
//! Files appear, disappear and are replaced by others of the same name, between requests. What has
//! been given stays; the collection is that of the opening; what has not been read yet is what the
//! files are when they are read; a new opening shows the directory as it is.

use crate::bworld::{self, BWorld, WCfg, XSnap};
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::manif::{self, Man};
use crate::model::{self, Ent};
use crate::names::{FName, Id, Part};
use crate::props::p19::{put, Scratch};
use crate::props::p23::twin;
use crate::sup::Prop;
use crate::tarw::Rec;
use crate::util::Rng;
use ruplicity::backend::local::LocalBackend;
use ruplicity::manifest::ParseError;
use ruplicity::{Backend, Backup, ManifestRef, SnapshotEntries};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::{self, Read};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P26",
        f: p26,
        quick: 20000,
        thorough: 90000,
        level: "exploration",
        rule: "a case is a directory (in memory or on disk), two sets of contents for its files, and a random history of files removed, replaced, brought back or made unreadable, of openings through one backend value and of requests to the open backup, whose answers are compared with what was in the files when they could be read; distinct by history, non-trivial if a request was made after a change",
        need: &[
            ("changes of files", 250_000),
            ("changes of a directory on disk", 60_000),
            ("openings compared with the directory as it is", 30_000),
            ("requests after a change", 100_000),
            ("requests refused for a file that is gone", 10_000),
            ("requests answered when the file was back", 1_000),
            ("answers that outlived their files", 9_000),
            ("handles compared after changes", 60_000),
        ],
        assumptions: &["the directory changes between requests, not during one"],
    }]
}

/// What there is under a name.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum St {
    Gone,
    Ver(usize),
    /// can be opened and not read (a directory)
    Bad,
}

trait Place {
    fn set(&self, name: &[u8], what: Option<Option<&Arc<Vec<u8>>>>, r: &mut Rng);
}

/// A directory in memory.
struct Ram(RefCell<BTreeMap<Vec<u8>, Option<Arc<Vec<u8>>>>>);

struct RamFile(Option<Arc<Vec<u8>>>, usize);
impl Read for RamFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.0 {
            Some(ref d) => {
                let n = buf.len().min(d.len() - self.1);
                buf[..n].copy_from_slice(&d[self.1..self.1 + n]);
                self.1 += n;
                Ok(n)
            }
            None => Err(io::Error::from_raw_os_error(libc::EISDIR)),
        }
    }
}

impl Backend for Ram {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = RamFile;
    fn file_names(&self) -> io::Result<Vec<OsString>> {
        Ok(self.0.borrow().keys().map(|k| OsString::from_vec(k.clone())).collect())
    }
    fn open_file(&self, name: &Path) -> io::Result<RamFile> {
        match self.0.borrow().get(name.as_os_str().as_bytes()) {
            Some(d) => Ok(RamFile(d.clone(), 0)),
            None => Err(io::Error::new(io::ErrorKind::NotFound, "no such file")),
        }
    }
}

impl Place for Ram {
    fn set(&self, name: &[u8], what: Option<Option<&Arc<Vec<u8>>>>, _: &mut Rng) {
        match what {
            None => self.0.borrow_mut().remove(name),
            Some(d) => self.0.borrow_mut().insert(name.to_vec(), d.cloned()),
        };
    }
}

/// A directory on disk.
struct Disk {
    dir: PathBuf,
    be: LocalBackend,
}
impl Backend for Disk {
    type FileName = <LocalBackend as Backend>::FileName;
    type FileNameIter = <LocalBackend as Backend>::FileNameIter;
    type FileStream = <LocalBackend as Backend>::FileStream;
    fn file_names(&self) -> io::Result<Self::FileNameIter> {
        self.be.file_names()
    }
    fn open_file(&self, name: &Path) -> io::Result<Self::FileStream> {
        self.be.open_file(name)
    }
}

impl Place for Disk {
    fn set(&self, name: &[u8], what: Option<Option<&Arc<Vec<u8>>>>, r: &mut Rng) {
        let p = self.dir.join(OsStr::from_bytes(name));
        let old = fs::symlink_metadata(&p).ok();
        let dir = old.as_ref().map_or(false, |m| m.is_dir());
        let res = match what {
            None if dir => fs::remove_dir(&p),
            None if old.is_some() => fs::remove_file(&p),
            None => Ok(()),
            Some(None) if dir => Ok(()),
            Some(None) => {
                if old.is_some() {
                    let _ = fs::remove_file(&p);
                }
                fs::create_dir(&p)
            }
            Some(Some(d)) => {
                if dir {
                    let _ = fs::remove_dir(&p);
                }
                // in place, or another file under the same name; sometimes with the old times
                let done = if r.bool() {
                    put(&p, d);
                    Ok(())
                } else {
                    let t = self.dir.join("...new");
                    put(&t, d);
                    fs::rename(&t, &p)
                };
                if let (Some(m), true) = (old, r.bool()) {
                    if let (Ok(t), Ok(f)) = (m.modified(), fs::File::options().write(true).open(&p)) {
                        let _ = f.set_modified(t);
                    }
                }
                done
            }
        };
        if let Err(e) = res {
            crate::hbug!("{}: {}", p.display(), e);
        }
    }
}

/// All the openings go through one backend value.
struct ByRef<'a, B>(&'a B);
impl<'a, B: Backend> Backend for ByRef<'a, B> {
    type FileName = B::FileName;
    type FileNameIter = B::FileNameIter;
    type FileStream = B::FileStream;
    fn file_names(&self) -> io::Result<B::FileNameIter> {
        self.0.file_names()
    }
    fn open_file(&self, name: &Path) -> io::Result<B::FileStream> {
        self.0.open_file(name)
    }
}

/// The directory as it should be.
struct Now {
    w: [BWorld; 2],
    st: Vec<St>,
}

impl Now {
    fn names(&self) -> Vec<FName> {
        let it = self.w[0].names.iter().zip(&self.st);
        it.filter(|x| *x.1 != St::Gone).map(|x| x.0.clone()).collect()
    }
    fn of(&self, id: Id, part: Part) -> St {
        let i = self.w[0].names.iter().position(|n| n.id == id && n.part == part);
        i.map_or(St::Gone, |i| self.st[i])
    }
    fn recs(&self) -> BTreeMap<Id, Vec<Rec>> {
        let ids = self.w[0].recs.keys();
        ids.filter_map(|id| match self.of(*id, Part::Sig) {
            St::Ver(v) => self.w[v].recs.get(id).map(|r| (*id, r.clone())),
            _ => None,
        })
        .collect()
    }
    fn mans(&self) -> BTreeMap<Id, Man> {
        let ids = self.w[0].mans.keys();
        ids.filter_map(|id| match self.of(*id, Part::Man) {
            St::Ver(v) => self.w[v].mans.get(id).map(|r| (*id, r.clone())),
            _ => None,
        })
        .collect()
    }
    fn change<P: Place>(&mut self, p: &P, r: &mut Rng, c: &mut Ctx, log: &mut Vec<String>) {
        let k = r.usize(self.st.len());
        let id = self.w[0].names[k].id;
        // one file, all the files of a set, or everything
        let whole = match r.below(12) {
            0 => 2,
            1 | 2 => 1,
            _ => 0,
        };
        let st = match r.below(10) {
            0..=2 => St::Gone,
            3 if whole == 0 => St::Bad,
            4..=6 => St::Ver(0),
            _ => St::Ver(1),
        };
        for i in 0..self.st.len() {
            let hit = i == k || whole == 2 || (whole == 1 && self.w[0].names[i].id == id);
            if !hit || self.st[i] == st {
                continue;
            }
            let n = self.w[0].names[i].text.clone().into_bytes();
            self.st[i] = st;
            self.write(p, i, &n, r);
            c.count("changes of files", 1);
            log.push(format!("{} is {:?}", String::from_utf8_lossy(&n), st));
        }
    }
    fn write<P: Place>(&self, p: &P, i: usize, n: &[u8], r: &mut Rng) {
        match self.st[i] {
            St::Gone => p.set(n, None, r),
            St::Bad => p.set(n, Some(None), r),
            St::Ver(v) => match self.w[v].files.get(n) {
                Some(d) => p.set(n, Some(Some(d)), r),
                None => crate::hbug!("no contents for {:?}", n),
            },
        }
    }
}

/// What an open backup can have read.
struct Known {
    /// the versions of each signature that there were at a request for its chain
    sigs: BTreeMap<Id, BTreeSet<usize>>,
    mans: Vec<BTreeSet<usize>>,
    given_e: Vec<Option<Vec<Ent>>>,
    given_m: Vec<Option<Man>>,
    refused: BTreeSet<(bool, usize)>,
}

/// All the listings that a snapshot may have, by the versions of the signatures it needs.
fn candidates(now: &Now, k: &Known, ids: &[Id]) -> Vec<Vec<Ent>> {
    let mut all = vec![model::Replay::default()];
    for id in ids {
        let mut next = Vec::new();
        for rp in &all {
            for v in k.sigs.get(id).into_iter().flatten() {
                let mut x = rp.clone();
                if let Some(rs) = now.w[*v].recs.get(id) {
                    x.apply(rs);
                }
                next.push(x);
            }
        }
        all = next;
    }
    all.iter().map(|r| r.list()).collect()
}

fn one_of<T, F: Fn(&T) -> Result<(), String>>(what: &str, cands: &[T], f: F) -> Result<usize, String> {
    let mut last = String::from("nothing that it needs has been there");
    for (i, x) in cands.iter().enumerate() {
        match f(x) {
            Ok(()) => return Ok(i),
            Err(e) => last = e,
        }
    }
    Err(format!("{} given, which the files do not say ({} possible answers): {}", what, cands.len(), last))
}

fn play<B: Backend + Place>(c: &mut Ctx, be: &B, now: &mut Now, disk: bool) -> R {
    let mut r = c.rng.fork();
    let mut log: Vec<String> = Vec::new();
    for i in 0..now.st.len() {
        let n = now.w[0].names[i].text.clone().into_bytes();
        now.write(be, i, &n, &mut r);
    }
    let before = c.counters.get("changes of files").cloned().unwrap_or(0);
    let res = sessions(c, be, now, &mut r, &mut log);
    if disk {
        let n = c.counters.get("changes of files").cloned().unwrap_or(0) - before;
        c.count("changes of a directory on disk", n);
    }
    c.distinct_of(&[log.join("\n").as_bytes()]);
    c.sample(|| log.join("; "));
    c.note(|| log.join("\n"));
    res
}

fn fresh<B: Backend>(c: &mut Ctx, be: &B, now: &Now) -> R {
    if now.st.contains(&St::Bad) {
        return Ok(());
    }
    let xs = bworld::expected(&now.names(), &now.recs(), &now.mans());
    let b = bworld::open(ByRef(be))?;
    bworld::check_all(&b, &xs, true).map_err(|e| format!("opened anew: {}", e))?;
    c.count("openings compared with the directory as it is", 1);
    Ok(())
}

fn sessions<B: Backend + Place>(c: &mut Ctx, be: &B, now: &mut Now, r: &mut Rng, log: &mut Vec<String>) -> R {
    let mut mine = ByRef(be);
    for s in 0..1 + r.usize(3) {
        log.push(format!("opening {}", s));
        let names = now.names();
        let xs: Vec<XSnap> = bworld::expected(&names, &now.w[0].recs, &now.w[0].mans);
        let b = bworld::open(mine)?;
        session(c, be, &b, &xs, now, r, log)?;
        mine = b.into_inner();
        for _ in 0..r.usize(4) {
            now.change(be, r, c, log);
        }
    }
    fresh(c, be, now)
}

fn session<'b, B: Backend + Place>(
    c: &mut Ctx,
    be: &B,
    b: &'b Backup<ByRef<B>>,
    xs: &[XSnap],
    now: &mut Now,
    r: &mut Rng,
    log: &mut Vec<String>,
) -> R {
    let ss = bworld::snaps(b)?;
    ensure!(ss.len() == xs.len(), "{} snapshots, expected {}", ss.len(), xs.len());
    let n = ss.len();
    let mut k = Known {
        sigs: BTreeMap::new(),
        mans: vec![BTreeSet::new(); n],
        given_e: vec![None; n],
        given_m: vec![None; n],
        refused: BTreeSet::new(),
    };
    let mut ents: Vec<(usize, SnapshotEntries)> = Vec::new();
    let mut mans: Vec<(usize, ManifestRef)> = Vec::new();
    let mut changed = false;
    for step in 0..6 + r.usize(20) {
        let at = |e: String| format!("step {}: {}", step, e);
        match r.below(10) {
            0..=3 => {
                now.change(be, r, c, log);
                changed = true;
            }
            4 => fresh(c, be, now).map_err(at)?,
            _ if n == 0 => (),
            5 => {
                // the collection is that of the opening
                let again = bworld::snaps(b).map_err(at)?;
                ensure!(again.len() == n, "step {}: {} snapshots, {} when it was opened", step, again.len(), n);
                for (s, x) in again.iter().zip(xs) {
                    bworld::check_snap(s, x).map_err(at)?;
                }
            }
            6..=8 => {
                let i = r.usize(n);
                log.push(format!("entries {}", i));
                let chain: Vec<usize> = (0..n).filter(|j| xs[*j].chain == xs[i].chain).collect();
                for j in &chain {
                    if let St::Ver(v) = now.of(xs[*j].set.id, Part::Sig) {
                        k.sigs.entry(xs[*j].set.id).or_default().insert(v);
                    }
                }
                let gone = |j: &usize| xs[*j].set.sig.is_some() && !matches!(now.of(xs[*j].set.id, Part::Sig), St::Ver(_));
                if changed {
                    c.count("requests after a change", 1);
                }
                match ss[i].entries() {
                    Ok(e) => {
                        let got = model::listing(e.as_signature(), model::CAP).map_err(at)?;
                        ensure!(
                            xs[i].entries.is_some(),
                            "step {}: entries of {} given, a signature is missing since the opening",
                            step,
                            i
                        );
                        match k.given_e[i] {
                            Some(ref g) => model::diff(&got, g, true).map_err(|e| at(format!("not what was given before: {}", e)))?,
                            None => {
                                let ids: Vec<Id> = chain.iter().filter(|j| **j <= i).map(|j| xs[*j].set.id).collect();
                                let cands = candidates(now, &k, &ids);
                                one_of(&format!("entries of {}", i), &cands, |w| model::diff(&got, w, true)).map_err(at)?;
                            }
                        }
                        if chain.iter().filter(|j| **j <= i).any(&gone) {
                            c.count("answers that outlived their files", 1);
                        }
                        if k.refused.remove(&(true, i)) {
                            c.count("requests answered when the file was back", 1);
                        }
                        k.given_e[i] = Some(got);
                        if ents.len() < 4 {
                            ents.push((i, e));
                        }
                    }
                    Err(e) => {
                        ensure!(k.given_e[i].is_none(), "step {}: entries of {} fail ({}) after they were given", step, i, e);
                        ensure!(
                            xs[i].entries.is_none() || chain.iter().any(&gone),
                            "step {}: entries of {} fail ({}) although their files are there",
                            step,
                            i,
                            e
                        );
                        if xs[i].entries.is_some() {
                            c.count("requests refused for a file that is gone", 1);
                            k.refused.insert((true, i));
                        }
                    }
                }
            }
            _ => {
                let i = r.usize(n);
                log.push(format!("manifest {}", i));
                let st = now.of(xs[i].set.id, Part::Man);
                if let St::Ver(v) = st {
                    k.mans[i].insert(v);
                }
                if changed {
                    c.count("requests after a change", 1);
                }
                match ss[i].manifest() {
                    Ok(m) => {
                        ensure!(xs[i].manifest.is_some(), "step {}: manifest {} given, there was none", step, i);
                        match k.given_m[i] {
                            Some(ref g) => manif::compare(&m, g).map_err(|e| at(format!("not what was given before: {}", e)))?,
                            None => {
                                let cands: Vec<Man> =
                                    k.mans[i].iter().filter_map(|v| now.w[*v].mans.get(&xs[i].set.id).cloned()).collect();
                                let w = one_of(&format!("manifest of {}", i), &cands, |w| manif::compare(&m, w)).map_err(at)?;
                                k.given_m[i] = Some(cands[w].clone());
                            }
                        }
                        if !matches!(st, St::Ver(_)) {
                            c.count("answers that outlived their files", 1);
                        }
                        if k.refused.remove(&(false, i)) {
                            c.count("requests answered when the file was back", 1);
                        }
                        if mans.len() < 4 {
                            mans.push((i, m));
                        }
                    }
                    Err(e) => {
                        ensure!(k.given_m[i].is_none(), "step {}: manifest {} fails ({}) after it was given", step, i, e);
                        ensure!(
                            xs[i].manifest.is_none() || !matches!(st, St::Ver(_)),
                            "step {}: manifest {} fails ({}) although its file is there",
                            step,
                            i,
                            e
                        );
                        if xs[i].manifest.is_some() {
                            c.count("requests refused for a file that is gone", 1);
                            k.refused.insert((false, i));
                            if st == St::Gone {
                                let found = matches!(e, ParseError::Io(ref e) if e.kind() != io::ErrorKind::NotFound);
                                ensure!(!found, "step {}: manifest {} is gone, and the error is {}", step, i, e);
                            }
                        }
                    }
                };
            }
        }
    }
    // what is held is still what it was
    for (i, e) in &ents {
        let got = model::listing(e.as_signature(), model::CAP)?;
        if let Some(ref g) = k.given_e[*i] {
            model::diff(&got, g, true).map_err(|e| format!("a listing of {} held meanwhile: {}", i, e))?;
        }
        c.count("handles compared after changes", 1);
    }
    for (i, m) in &mans {
        if let Some(ref g) = k.given_m[*i] {
            manif::compare(m, g).map_err(|e| format!("a manifest of {} held meanwhile: {}", i, e))?;
        }
        c.count("handles compared after changes", 1);
    }
    Ok(())
}

fn p26(c: &mut Ctx) -> R {
    let mut cfg = WCfg::tame();
    cfg.chains = 2;
    cfg.snaps = 3;
    cfg.fs.ops = 4;
    cfg.fs.max_nodes = 10;
    cfg.plain_enc = c.rng.bool();
    // a history of a few sets only: every mixture of versions is a possible answer
    let mut w = bworld::build(&mut c.rng, &cfg);
    for _ in 0..50 {
        if w.recs.len() <= 7 {
            break;
        }
        w = bworld::build(&mut c.rng, &cfg);
    }
    if w.recs.len() > 7 || w.names.len() > 200 {
        return Ok(());
    }
    let t = twin(&w, &mut c.rng, &cfg);
    c.note(|| format!("{}\nand\n{}", w.describe(), t.describe()));
    // at first some files are not there yet
    let st: Vec<St> = w
        .names
        .iter()
        .map(|_| match c.rng.below(12) {
            0 => St::Gone,
            1 | 2 => St::Ver(1),
            _ => St::Ver(0),
        })
        .collect();
    let mut now = Now { w: [w, t], st };
    if c.idx % 4 == 0 {
        let scratch = Scratch::new(c.idx);
        let be = Disk {
            dir: scratch.0.clone(),
            be: LocalBackend::new(&scratch.0),
        };
        play(c, &be, &mut now, true)
    } else {
        play(c, &Ram(RefCell::new(BTreeMap::new())), &mut now, false)
    }
}
