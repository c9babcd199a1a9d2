//! File names of a backup, and the chains they describe (an independent model of duplicity's rules).

use crate::ensure;
use crate::util::{stamp, Rng};
use ruplicity::collections::{BackupChain, BackupSet, Collections, SignatureFile};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Part {
    Vol(u64),
    Man,
    Sig,
}

/// kind (incremental or not), start and end time: the identity of a set
pub type Id = (bool, i64, i64);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct FName {
    pub id: Id,
    pub part: Part,
    pub partial: bool,
    pub comp: bool,
    pub enc: bool,
    pub text: String,
}

/// Letter case of the time stamps.
#[derive(Clone, Copy, PartialEq)]
pub enum Case {
    Upper,
    Lower,
    Mixed,
    /// the whole name in upper case
    AllUpper,
    /// every letter of the name in any case
    AllMixed,
}

fn st(t: i64, c: Case, r: &mut Rng) -> String {
    let s = stamp(t);
    match c {
        Case::Lower => s.to_lowercase(),
        Case::Mixed => mixed(&s, r),
        _ => s,
    }
}

fn mixed(s: &str, r: &mut Rng) -> String {
    s.chars()
        .map(|c| {
            if r.bool() {
                c.to_ascii_lowercase()
            } else {
                c.to_ascii_uppercase()
            }
        })
        .collect()
}

pub fn make(id: Id, part: Part, partial: bool, suffix: &str, case: Case, r: &mut Rng) -> FName {
    let (inc, t0, t1) = id;
    let times = if inc {
        format!("{}.to.{}", st(t0, case, r), st(t1, case, r))
    } else {
        st(t1, case, r)
    };
    let p = if partial { ".part" } else { "" };
    let text = match part {
        Part::Vol(n) => format!(
            "duplicity-{}.{}.vol{}.difftar{}",
            if inc { "inc" } else { "full" },
            times,
            n,
            suffix
        ),
        Part::Man => format!(
            "duplicity-{}.{}.manifest{}{}",
            if inc { "inc" } else { "full" },
            times,
            p,
            suffix
        ),
        Part::Sig => format!(
            "duplicity-{}-signatures.{}.sigtar{}{}",
            if inc { "new" } else { "full" },
            times,
            p,
            suffix
        ),
    };
    let text = match case {
        Case::AllUpper => text.to_ascii_uppercase(),
        Case::AllMixed => mixed(&text, r),
        _ => text,
    };
    FName {
        id,
        part,
        partial,
        comp: matches!(suffix.rsplit('.').next(), Some("gz") | Some("z")) && !suffix.is_empty(),
        enc: matches!(suffix.rsplit('.').next(), Some("gpg") | Some("g")) && !suffix.is_empty(),
        text,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MSet {
    pub id: Id,
    pub vols: BTreeMap<u64, String>,
    pub man: Option<FName>,
    pub sig: Option<FName>,
    pub comp: bool,
    pub enc: bool,
    pub partial: bool,
}
impl MSet {
    pub fn inc(&self) -> bool {
        self.id.0
    }
    pub fn start(&self) -> i64 {
        self.id.1
    }
    pub fn end(&self) -> i64 {
        self.id.2
    }
}

#[derive(Clone, Debug)]
pub struct MChain {
    pub sets: Vec<MSet>,
}
impl MChain {
    pub fn end(&self) -> i64 {
        self.sets.last().map_or(0, |s| s.end())
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub chains: Vec<MChain>,
    pub sigs: Vec<Vec<FName>>,
    /// two new-signatures start at the same time: signature chains are not claimed
    pub sig_ties: bool,
    pub orphans: usize,
    pub replaced: usize,
}

/// The sets, keyed by kind and times.
pub fn sets(files: &[FName]) -> BTreeMap<Id, MSet> {
    let mut m: BTreeMap<Id, MSet> = BTreeMap::new();
    for f in files {
        let s = m.entry(f.id).or_insert_with(|| MSet {
            id: f.id,
            vols: BTreeMap::new(),
            man: None,
            sig: None,
            comp: false,
            enc: false,
            partial: false,
        });
        match f.part {
            Part::Vol(n) => {
                s.vols.insert(n, f.text.clone());
            }
            Part::Man => s.man = Some(f.clone()),
            Part::Sig => s.sig = Some(f.clone()),
        }
        s.comp |= f.comp;
        s.enc |= f.enc;
        s.partial |= f.partial;
    }
    m
}

pub fn model(files: &[FName]) -> Model {
    let mut all: Vec<MSet> = sets(files).into_iter().map(|(_, s)| s).collect();
    all.sort_by_key(|s| s.end());
    let mut chains: Vec<MChain> = Vec::new();
    let (mut orphans, mut replaced) = (0, 0);
    for s in all {
        if !s.inc() {
            chains.push(MChain { sets: vec![s] });
            continue;
        }
        if let Some(c) = chains.iter_mut().find(|c| c.end() == s.start()) {
            c.sets.push(s);
            continue;
        }
        let rep = chains.iter_mut().find(|c| {
            c.sets.len() > 1
                && c.sets.last().map_or(false, |l| l.start() == s.start() && s.end() > l.end())
        });
        match rep {
            Some(c) => {
                c.sets.pop();
                c.sets.push(s);
                replaced += 1;
            }
            None => orphans += 1,
        }
    }
    chains.sort_by_key(|c| (c.end(), c.sets[0].start()));

    let mut sigs: Vec<Vec<FName>> = files
        .iter()
        .filter(|f| f.part == Part::Sig && !f.id.0)
        .map(|f| vec![f.clone()])
        .collect();
    sigs.sort_by_key(|c| c[0].id.2);
    let mut incs: Vec<FName> = files
        .iter()
        .filter(|f| f.part == Part::Sig && f.id.0)
        .cloned()
        .collect();
    incs.sort_by_key(|f| f.id.1);
    let sig_ties = incs.windows(2).any(|w| w[0].id.1 == w[1].id.1);
    for i in incs {
        for c in sigs.iter_mut() {
            let end = c[c.len() - 1].id.2;
            if end == i.id.1 {
                c.push(i);
                break;
            }
        }
    }
    Model {
        chains,
        sigs,
        sig_ties,
        orphans,
        replaced,
    }
}

fn check_time(what: &str, t: time::Timespec, want: i64) -> Result<(), String> {
    ensure!(
        t.sec == want && t.nsec == 0,
        "{} is {}.{}, expected {}",
        what,
        t.sec,
        t.nsec,
        want
    );
    Ok(())
}

pub fn check_set_times(s: &BackupSet, w: &MSet) -> Result<(), String> {
    ensure!(
        s.is_full() == !w.inc() && s.is_incremental() == w.inc(),
        "kind full={} inc={}, expected inc={}",
        s.is_full(),
        s.is_incremental(),
        w.inc()
    );
    check_time("start time", s.start_time(), w.start())?;
    check_time("end time", s.end_time(), w.end())
}

/// P08: the files and flags of a set.
pub fn check_set_files(s: &BackupSet, w: &MSet, probes: &[u64]) -> Result<(), String> {
    ensure!(
        s.num_volumes() == w.vols.len(),
        "num_volumes {} expected {}",
        s.num_volumes(),
        w.vols.len()
    );
    for p in w.vols.keys().chain(probes) {
        let got = s.volume_path(*p as usize);
        let want = w.vols.get(p).map(|x| &x[..]);
        ensure!(
            got == want,
            "volume_path({}) is {:?}, expected {:?}",
            p,
            got,
            want
        );
    }
    let man = w.man.as_ref().map_or("", |m| &m.text);
    ensure!(
        s.manifest_path() == man,
        "manifest_path {:?}, expected {:?}",
        s.manifest_path(),
        man
    );
    ensure!(
        s.is_complete() == w.man.is_some(),
        "is_complete {}",
        s.is_complete()
    );
    ensure!(s.is_compressed() == w.comp, "is_compressed {}", s.is_compressed());
    ensure!(s.is_encrypted() == w.enc, "is_encrypted {}", s.is_encrypted());
    ensure!(s.is_partial() == w.partial, "is_partial {}", s.is_partial());
    Ok(())
}

pub fn check_chain<F>(c: &BackupChain, w: &MChain, mut each: F) -> Result<(), String>
where
    F: FnMut(&BackupSet, &MSet) -> Result<(), String>,
{
    check_time("chain start", c.start_time(), w.sets[0].start())?;
    check_time("chain end", c.end_time(), w.end())?;
    check_set_times(c.full_set(), &w.sets[0]).map_err(|e| format!("full set: {}", e))?;
    each(c.full_set(), &w.sets[0])?;
    let incs: Vec<&BackupSet> = c.inc_sets().collect();
    ensure!(
        incs.len() == w.sets.len() - 1,
        "{} incrementals, expected {}",
        incs.len(),
        w.sets.len() - 1
    );
    for (i, (s, m)) in incs.iter().zip(&w.sets[1..]).enumerate() {
        check_set_times(s, m).map_err(|e| format!("incremental {}: {}", i, e))?;
        each(s, m).map_err(|e| format!("incremental {}: {}", i, e))?;
    }
    Ok(())
}

pub fn check_sigfile(s: &SignatureFile, w: &FName) -> Result<(), String> {
    ensure!(s.file_name == w.text, "signature {:?}, expected {:?}", s.file_name, w.text);
    check_time("signature time", s.time, w.id.2)?;
    ensure!(
        s.compressed == w.comp && s.encrypted == w.enc,
        "flags of {:?}: compressed {} encrypted {}",
        s.file_name,
        s.compressed,
        s.encrypted
    );
    Ok(())
}

/// P06: chains of sets and of signatures.
pub fn check_chains<F>(c: &Collections, m: &Model, mut each: F) -> Result<(), String>
where
    F: FnMut(&BackupSet, &MSet) -> Result<(), String>,
{
    let mut got: Vec<&BackupChain> = c.backup_chains().collect();
    ensure!(
        got.windows(2).all(|w| w[0].end_time() <= w[1].end_time()),
        "backup chains are not in order of end time"
    );
    // the order of chains that end at the same time is not claimed
    got.sort_by_key(|g| (g.end_time(), g.start_time()));
    ensure!(
        got.len() == m.chains.len(),
        "{} backup chains, expected {}",
        got.len(),
        m.chains.len()
    );
    for (i, (g, w)) in got.iter().zip(&m.chains).enumerate() {
        check_chain(g, w, &mut each).map_err(|e| format!("chain {}: {}", i, e))?;
    }
    let total: usize = m.chains.iter().map(|c| c.sets.len()).sum();
    ensure!(
        c.num_snapshots() == total,
        "num_snapshots {}, expected {}",
        c.num_snapshots(),
        total
    );
    ensure!(
        c.signature_chains()
            .zip(c.signature_chains().skip(1))
            .all(|(a, b)| a.start_time() <= b.start_time()),
        "signature chains are not in order of start time"
    );
    if !m.sig_ties {
        let got: Vec<_> = c.signature_chains().collect();
        ensure!(
            got.len() == m.sigs.len(),
            "{} signature chains, expected {}",
            got.len(),
            m.sigs.len()
        );
        for (i, (g, w)) in got.iter().zip(&m.sigs).enumerate() {
            let ctx = |e: String| format!("signature chain {}: {}", i, e);
            check_sigfile(g.full_signature(), &w[0]).map_err(ctx)?;
            let incs: Vec<_> = g.inc_signatures().collect();
            ensure!(
                incs.len() == w.len() - 1,
                "signature chain {}: {} incrementals, expected {}",
                i,
                incs.len(),
                w.len() - 1
            );
            for (s, x) in incs.iter().zip(&w[1..]) {
                check_sigfile(s, x).map_err(ctx)?;
            }
            check_time("sig chain start", g.start_time(), w[0].id.2).map_err(ctx)?;
            check_time("sig chain end", g.end_time(), w[w.len() - 1].id.2).map_err(ctx)?;
        }
    }
    Ok(())
}

/// Distinct instants, in increasing order. Some are close, some far, some at calendar corners.
pub fn instants(r: &mut Rng, n: usize) -> Vec<i64> {
    let mut v: Vec<i64> = Vec::new();
    let base = r.range(0, 4_000_000_000);
    let mut t = base;
    while v.len() < n {
        t += match r.below(6) {
            0 => 1,
            1 => r.range(1, 120),
            2 => 86400,
            3 => r.range(1, 40 * 86400),
            _ => 3600 + r.range(0, 100_000),
        };
        v.push(t);
    }
    v
}

/// Random sets of a random history: chains, forks, orphans, replaced incrementals.
pub fn random_ids(r: &mut Rng, max: usize) -> Vec<Id> {
    let n = 1 + r.usize(max);
    let n = r.count(n, 300);
    let ts = instants(r, n + 2);
    let mut ids: Vec<Id> = Vec::new();
    let messy = r.chance(2, 3);
    let mut tips: Vec<i64> = Vec::new();
    for i in 0..n {
        let t = ts[i + 1];
        let what = r.below(10);
        if tips.is_empty() || what < 2 {
            if messy && tips.is_empty() && r.chance(1, 3) {
                // an incremental of a chain that does not exist
                ids.push((true, ts[0], t));
                continue;
            }
            ids.push((false, t, t));
            tips.push(t);
        } else if messy && what == 2 {
            // same start as some other incremental (fork or replacement)
            let prev: Vec<Id> = ids.iter().filter(|x| x.0).cloned().collect();
            if let Some(p) = prev.last() {
                ids.push((true, p.1, t));
            } else {
                ids.push((false, t, t));
                tips.push(t);
            }
        } else if messy && what == 3 {
            // starts at any earlier instant
            let s = ts[r.usize(i + 1)];
            ids.push((true, s, t));
        } else {
            // continues one of the chains
            let k = if r.chance(3, 4) {
                tips.len() - 1
            } else {
                r.usize(tips.len())
            };
            ids.push((true, tips[k], t));
            tips[k] = t;
        }
    }
    ids.dedup();
    ids
}

/// Chains taken side by side by backups that run at the same moments: sets with the same end but
/// another start, each with only one chain to attach to.
pub fn twin_ids(r: &mut Rng) -> Vec<Id> {
    let ts = instants(r, 12);
    let mut ids: Vec<Id> = Vec::new();
    let k = 2 + r.usize(3);
    for i in 0..k {
        ids.push((false, ts[i], ts[i]));
    }
    // the incrementals of all chains end at the same moment
    let together = 1 + r.usize(k);
    let mut tips: Vec<i64> = Vec::new();
    for i in 0..k {
        let end = if i < together { ts[6] } else { ts[6 + i] };
        if r.chance(3, 4) {
            ids.push((true, ts[i], end));
            tips.push(end);
        } else {
            tips.push(ts[i]);
        }
    }
    // the ones that are still alone continue
    for i in 0..k {
        if tips.iter().filter(|t| **t == tips[i]).count() == 1 && r.bool() {
            ids.push((true, tips[i], ts[11]));
        }
    }
    ids
}

pub fn suffix(r: &mut Rng, part: Part) -> &'static str {
    match part {
        _ if r.chance(1, 16) => *r.pick(&[".xz", ".old", ".gz.old", ".gpg.1", ".zz", ".jpg", ".z.g"]),
        Part::Man => *r.pick(&["", "", ".gpg", ".gz", ".g"]),
        _ => *r.pick(&["", ".gz", ".gz", ".gpg", ".z", ".g"]),
    }
}

/// The files of the given sets; any part may be absent but each set has at least one file.
pub fn random_files(r: &mut Rng, ids: &[Id], wild_vols: bool) -> Vec<FName> {
    let mut v: Vec<FName> = Vec::new();
    let case = match r.below(10) {
        0 => Case::Lower,
        1 => Case::Mixed,
        2 => Case::AllUpper,
        3 => Case::AllMixed,
        _ => Case::Upper,
    };
    for id in ids {
        let before = v.len();
        if r.chance(4, 5) {
            let p = r.chance(1, 8);
            let s = suffix(r, Part::Man);
            v.push(make(*id, Part::Man, p, s, case, r));
        }
        if r.chance(4, 5) {
            let p = r.chance(1, 8);
            let s = suffix(r, Part::Sig);
            v.push(make(*id, Part::Sig, p, s, case, r));
        }
        if r.chance(4, 5) {
            let s = suffix(r, Part::Vol(1));
            let mut nums: Vec<u64> = Vec::new();
            let n = 1 + r.usize(4);
            let n = r.count(n, if ids.len() < 20 { 3000 } else { 20 }) as u64;
            if wild_vols && r.bool() {
                for _ in 0..n {
                    nums.push(r.wild());
                }
            } else {
                nums.extend(1..=n);
                if r.chance(1, 4) && n > 1 {
                    // a hole
                    let i = r.usize(nums.len());
                    nums.remove(i);
                }
            }
            nums.sort();
            nums.dedup();
            for n in nums {
                let s2 = if r.chance(1, 8) { suffix(r, Part::Vol(1)) } else { s };
                v.push(make(*id, Part::Vol(n), false, s2, case, r));
            }
        }
        if v.len() == before {
            v.push(make(*id, Part::Sig, false, ".gz", case, r));
        }
    }
    v
}

/// A name of any kind with one defect that makes it something else.
pub fn near_miss(r: &mut Rng, id: Id) -> Vec<u8> {
    let part = *r.pick(&[Part::Vol(9), Part::Man, Part::Sig]);
    let partial = part != Part::Vol(9) && r.chance(1, 4);
    let sfx = *r.pick(&["", ".gz", ".gpg"]);
    let what = r.below(6);
    let text = r.special_text(2);
    // whatever follows the dot after the last keyword is a suffix, so this must not be partial
    let partial = partial && what != 1;
    let good = make(id, part, partial, "", Case::Upper, r).text;
    match what {
        _ if text.is_some() && what != 1 => {
            // a text of a changed library, before everything
            let mut v = text.unwrap_or_default();
            v.retain(|b| *b != 0 && *b != b'/');
            if v.is_empty() {
                v.push(b'x');
            }
            v.extend(good.bytes());
            v.extend(sfx.bytes());
            return v;
        }
        // something before
        0 => format!("{}{}{}", r.pick(&["x", ".", " ", "~", "old.", "duplicity-", "sub/", "\n", "D"]), good, sfx),
        // something after the last keyword
        1 => format!("{}{}{}", good, r.pick(&["x", "1", "~", "_", "-old", " ", "\n"]), sfx),
        2 => {
            // another letter or no letter at all in a keyword
            let mut v = good.into_bytes();
            let letters: Vec<usize> = (0..v.len())
                .filter(|i| v[*i].is_ascii_lowercase() || v[*i] == b'-')
                .filter(|i| !(partial && *i + 4 >= v.len()))
                .collect();
            let at = *r.pick(&letters);
            if r.bool() {
                v[at] = *r.pick(b"#_0=");
            } else {
                v.remove(at);
            }
            v.extend(sfx.bytes());
            String::from_utf8_lossy(&v).into_owned()
        }
        3 => {
            // a digit of a time missing, surplus or not a digit
            let mut v = good.into_bytes();
            let first = v.iter().position(|b| b.is_ascii_digit()).unwrap_or(0);
            let at = first + r.usize(8);
            match r.below(3) {
                0 => v[at] = *r.pick(b"x-:/ "),
                1 => {
                    v.remove(at);
                }
                _ => v.insert(at, *r.pick(b"0123456789")),
            }
            v.extend(sfx.bytes());
            String::from_utf8_lossy(&v).into_owned()
        }
        4 => {
            // the dot after the kind or before the last keyword
            let dots: Vec<usize> = good.match_indices('.').map(|m| m.0).collect();
            let at = if partial { dots[0] } else { *r.pick(&dots) };
            let mut v = good.into_bytes();
            if r.bool() {
                v[at] = *r.pick(b"x_-");
            } else {
                v.remove(at);
            }
            v.extend(sfx.bytes());
            String::from_utf8_lossy(&v).into_owned()
        }
        _ => {
            // cut short
            let n = r.usize(good.len() - if partial { 5 } else { 0 });
            good[..n].to_owned()
        }
    }
    .into_bytes()
}

/// A near miss that would change the given sets if it were taken for a name.
pub fn foreign_near(r: &mut Rng, ids: &[Id]) -> Vec<u8> {
    if ids.is_empty() || r.chance(1, 4) {
        return foreign(r);
    }
    let id = *r.pick(ids);
    let id = if r.bool() { id } else { (true, id.2, id.2 + 1 + r.range(0, 100_000)) };
    near_miss(r, id)
}

/// Names that look almost like duplicity's, but are not.
pub fn foreign(r: &mut Rng) -> Vec<u8> {
    let t = r.range(0, 4_000_000_000);
    let a = stamp(t);
    let b = stamp(t + 3600);
    if r.chance(1, 3) {
        let id = if r.bool() { (true, t, t + 3600) } else { (false, t, t) };
        return near_miss(r, id);
    }
    let s: String = match r.below(26) {
        0 => "README.txt".into(),
        1 => format!("xduplicity-full.{}.manifest", a),
        2 => format!("duplicity-full.{}.manifestx", a),
        3 => format!("duplicity-full.{}.vol.difftar.gz", a),
        4 => format!("duplicity-full.{}.volx1.difftar.gz", a),
        5 => format!("duplicity-full.{}.vol1.difftarx", a),
        6 => format!("duplicity-full.{}.manifest", &a[1..]),
        7 => format!("duplicity-full.{}.manifest", a.replace('T', "-")),
        8 => format!("duplicity-full.{}.vol1.difftar.gz", a.replace('Z', "")),
        9 => format!("duplicity-inc.{}.manifest", a),
        10 => format!("duplicity-inc.{}.{}.manifest", a, b),
        11 => format!("duplicity-inc.{}.to.{}.vol1", a, b),
        12 => format!("duplicity-full-signatures.{}.sigta.gz", a),
        13 => format!("duplicity-new-signatures.{}.sigtar.gz", a),
        14 => format!("duplicity-full.{}.to.{}.manifest", a, b),
        15 => "duplicity-full.20150230T000000Z.manifest".into(),
        16 => "duplicity-full.20151301T000000Z.manifest".into(),
        17 => "duplicity-full.20150101T240000Z.vol1.difftar.gz".into(),
        18 => "duplicity-full.20150101T006000Z.vol1.difftar.gz".into(),
        19 => format!("duplicity-full.{}.vol99999999999999999999999.difftar.gz", a),
        20 => format!(".duplicity-full.{}.manifest", a),
        21 => format!("sub/duplicity-full.{}.manifest", a),
        22 => format!("duplicity-full.{}.manifest\n", a),
        23 => format!("duplicity_full.{}.manifest", a),
        24 => format!("duplicity-new-signatures.{}.to.20150101T0000Z.sigtar.gz", a),
        _ => {
            // not valid UTF-8
            let mut v = match r.below(4) {
                0 => format!("duplicity-full.{}.manifest", a).into_bytes(),
                1 => format!("duplicity-full-signatures.{}.sigtar.gz", a).into_bytes(),
                2 => format!("duplicity-inc.{}.to.{}.vol1.difftar.gz", a, b).into_bytes(),
                _ => b"x".to_vec(),
            };
            let at = r.usize(v.len() + 1);
            v.insert(at, 0xff);
            return v;
        }
    };
    s.into_bytes()
}
