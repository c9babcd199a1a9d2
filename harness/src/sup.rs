//! Supervisor and workers.
//!
//! The supervisor runs the cases of a property in several processes, so that a crash, an abort, a
//! hang or the exhaustion of memory in the code under test is observed from outside.

use crate::ctx::{Ctx, R};
use crate::hooks;
use crate::util::{clip, json_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub f: fn(&mut Ctx) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    /// what the monitors must have observed for the run to mean anything
    pub need: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub cases: Option<u64>,
    pub jobs: u64,
    pub evidence: Option<PathBuf>,
    pub root: PathBuf,
    pub tag: String,
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let p = id.bytes().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    mix(mix(mix(seed) ^ p) ^ idx)
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok,
    Violation(String),
    Harness(String),
}

thread_local! {
    static PANIC: RefCell<Option<(String, String, bool)>> = RefCell::new(None);
}

/// The panics of other threads (P23) are kept here too.
static LAST: std::sync::Mutex<Option<(String, String, bool)>> = std::sync::Mutex::new(None);

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info
            .location()
            .map_or("?".to_owned(), |l| format!("{}:{}", l.file(), l.line()));
        let file = info.location().map_or("", |l| l.file());
        // who panicked: this harness, or the code under test (or one of its dependencies)?
        let mut ours = msg.starts_with("HARNESS:") || file.starts_with("src/") || file.contains("/harness/src/");
        if !ours && file.contains("/library/") || file.contains("/rustc/") {
            // a panic inside the standard library: look for the closest caller
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            for l in bt.lines() {
                if l.contains("ruplicity::") || l.contains("ruplicity[") {
                    ours = false;
                    break;
                }
                if l.contains("rv::") && !l.contains("rv::sup::install_panic_hook") && !l.contains("rv::hooks") {
                    ours = true;
                    break;
                }
            }
        }
        let v = Some((msg, loc, ours));
        if let Ok(mut g) = LAST.lock() {
            *g = v.clone();
        }
        PANIC.with(|p| *p.borrow_mut() = v);
    }));
}

/// Describes the last panic of any thread.
pub fn last_panic() -> Option<(String, String, bool)> {
    LAST.lock().ok().and_then(|g| g.clone())
}

pub fn run_case(p: &Prop, ctx: &mut Ctx, seed: u64, idx: u64) -> Out {
    run_with(p, ctx, Rng::new(case_seed(seed, p.id, idx)), idx)
}

/// one case with the given decisions
pub fn run_with(p: &Prop, ctx: &mut Ctx, rng: Rng, idx: u64) -> Out {
    ctx.rng = rng;
    ctx.idx = idx;
    PANIC.with(|x| *x.borrow_mut() = None);
    // the same current time and zone for every run; some properties choose their own
    hooks::fake_now(Some(1_600_000_000));
    hooks::set_tz("UTC");
    let r = panic::catch_unwind(AssertUnwindSafe(|| (p.f)(ctx)));
    hooks::fail_readdir(None);
    match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(m)) => Out::Violation(m),
        Err(_) => {
            let info = PANIC.with(|x| x.borrow().clone());
            match info {
                Some((msg, loc, true)) => Out::Harness(format!("{} at {}", msg, loc)),
                Some((msg, loc, false)) => Out::Violation(format!("panic: {} at {}", msg, loc)),
                None => Out::Harness("panic without information".into()),
            }
        }
    }
}

pub const MEM_CAP: usize = 1_500_000_000;

pub fn worker(p: &Prop, o: &Opts, k: u64, total: u64, dir: &Path) -> i32 {
    install_panic_hook();
    hooks::set_cap(MEM_CAP);
    let progress = match fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(dir.join(format!("w{}.progress", k)))
    {
        Ok(f) => f,
        Err(_) => return 2,
    };
    let mut ctx = Ctx::new(o.thorough);
    let mut idx = k;
    let mut done = 0u64;
    let mut verdict = String::new();
    while idx < total {
        let _ = progress.write_at(&(idx + 1).to_le_bytes(), 0);
        match run_case(p, &mut ctx, o.seed, idx) {
            Out::Ok => done += 1,
            Out::Violation(m) => {
                verdict = format!("V\t{}\t{}\n", idx, m.replace('\n', "\\n").replace('\t', " "));
                break;
            }
            Out::Harness(m) => {
                verdict = format!("H\t{}\t{}\n", idx, m.replace('\n', "\\n").replace('\t', " "));
                break;
            }
        }
        idx += o.jobs;
    }
    let mut rep = String::new();
    rep.push_str(&format!("N\t{}\n", done));
    for (n, v) in &ctx.counters {
        rep.push_str(&format!("C\t{}\t{}\n", n, v));
    }
    for (n, v) in &ctx.maxes {
        rep.push_str(&format!("M\t{}\t{}\n", n, v));
    }
    for s in &ctx.samples {
        rep.push_str(&format!("S\t{}\n", s.replace('\n', "\\n").replace('\t', " ")));
    }
    rep.push_str(&verdict);
    rep.push_str("END\n");
    let mut d = Vec::with_capacity(ctx.distinct.len() * 8);
    for h in &ctx.distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    if fs::write(dir.join(format!("w{}.distinct", k)), d).is_err()
        || fs::write(dir.join(format!("w{}.report", k)), rep).is_err()
    {
        return 2;
    }
    0
}

struct W {
    k: u64,
    child: Child,
    case: u64,
    cpu0: f64,
    since: Instant,
    done: bool,
}

fn cpu_of(pid: u32) -> Option<f64> {
    // our own child
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

const CASE_CPU_LIMIT: f64 = 40.0;
const CASE_WALL_LIMIT: u64 = 240;

fn read_case(f: &Path) -> u64 {
    let mut b = [0u8; 8];
    match fs::File::open(f).and_then(|mut f| f.read(&mut b)) {
        Ok(8) => u64::from_le_bytes(b),
        _ => 0,
    }
}

pub fn supervise(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let total = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let dir = std::env::temp_dir().join(format!("rv-{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    if let Err(e) = fs::create_dir_all(&dir) {
        println!("cannot create {}: {}", dir.display(), e);
        return 2;
    }
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            println!("current_exe: {}", e);
            return 2;
        }
    };
    let mut ws: Vec<W> = Vec::new();
    for k in 0..o.jobs {
        let err = fs::File::create(dir.join(format!("w{}.stderr", k)));
        let child = Command::new(&exe)
            .arg("worker")
            .arg(p.id)
            .arg(k.to_string())
            .arg(total.to_string())
            .arg(&dir)
            .env("RV_SEED", o.seed.to_string())
            .env("RV_JOBS", o.jobs.to_string())
            .env("RV_TIER", if o.thorough { "thorough" } else { "quick" })
            .env("TMPDIR", &dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(match err {
                Ok(f) => Stdio::from(f),
                Err(_) => Stdio::null(),
            })
            .spawn();
        match child {
            Ok(child) => ws.push(W {
                k,
                child,
                case: 0,
                cpu0: 0.0,
                since: Instant::now(),
                done: false,
            }),
            Err(e) => {
                println!("spawn: {}", e);
                return 2;
            }
        }
    }
    // (case, message)
    let mut viol: Vec<(u64, String)> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(30));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let prog = dir.join(format!("w{}.progress", w.k));
            match w.child.try_wait() {
                Ok(None) => {
                    let c = read_case(&prog);
                    let cpu = cpu_of(w.child.id()).unwrap_or(0.0);
                    if c != w.case {
                        w.case = c;
                        w.cpu0 = cpu;
                        w.since = Instant::now();
                    } else if c > 0
                        && (cpu - w.cpu0 > CASE_CPU_LIMIT
                            || w.since.elapsed().as_secs() > CASE_WALL_LIMIT)
                    {
                        viol.push((
                            c - 1,
                            format!(
                                "the case does not end: {:.0} s of CPU, {} s of wall time",
                                cpu - w.cpu0,
                                w.since.elapsed().as_secs()
                            ),
                        ));
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                    }
                }
                Ok(Some(st)) => {
                    w.done = true;
                    let rep = fs::read_to_string(dir.join(format!("w{}.report", w.k))).unwrap_or_default();
                    if st.code() == Some(0) && rep.ends_with("END\n") {
                        for l in rep.lines() {
                            let f: Vec<&str> = l.splitn(3, '\t').collect();
                            let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
                            match f[0] {
                                "N" => evals += n(1),
                                "C" => *counters.entry(f[1].to_owned()).or_insert(0) += n(2),
                                "M" => {
                                    let m = maxes.entry(f[1].to_owned()).or_insert(0);
                                    *m = (*m).max(n(2));
                                }
                                "S" => samples.push(l[2..].to_owned()),
                                "V" => viol.push((n(1), f.get(2).unwrap_or(&"").to_string())),
                                "H" => errors.push(format!("case {}: {}", n(1), f.get(2).unwrap_or(&""))),
                                _ => (),
                            }
                        }
                        if let Ok(d) = fs::read(dir.join(format!("w{}.distinct", w.k))) {
                            for c in d.chunks_exact(8) {
                                let mut b = [0u8; 8];
                                b.copy_from_slice(c);
                                distinct.insert(u64::from_le_bytes(b));
                            }
                        }
                    } else {
                        let case = read_case(&prog);
                        let err = fs::read_to_string(dir.join(format!("w{}.stderr", w.k))).unwrap_or_default();
                        let err = clip(&err.replace('\n', "\\n"), 1500);
                        match (st.signal(), st.code()) {
                            (Some(libc::SIGKILL), _) | (Some(libc::SIGTERM), _) | (Some(libc::SIGINT), _) => {
                                errors.push(format!("worker {} was killed at case {}", w.k, case))
                            }
                            (Some(s), _) if case > 0 => viol.push((
                                case - 1,
                                format!("the process died with signal {}: {}", s, err),
                            )),
                            (_, Some(c)) if case > 0 && err.contains("Sanitizer") => {
                                viol.push((case - 1, format!("sanitizer report, exit {}: {}", c, err)))
                            }
                            (s, c) => errors.push(format!(
                                "worker {} ended with {:?}/{:?} at case {}: {}",
                                w.k, s, c, case, err
                            )),
                        }
                    }
                }
                Err(e) => {
                    errors.push(format!("wait: {}", e));
                    w.done = true;
                }
            }
        }
        if !viol.is_empty() {
            // one is enough
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();

    if viol.is_empty() && errors.is_empty() {
        for (n, min) in p.need {
            let min = if o.cases.is_some() { 1.min(*min) } else { *min };
            let got = counters.get(*n).cloned().unwrap_or(0);
            if got < min {
                errors.push(format!("the monitors observed too little: {} = {} < {}", n, got, min));
            }
        }
    }

    viol.sort();
    let mut replay = None;
    if let Some((case, msg)) = viol.first() {
        let rdir = o.root.join("replays");
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-seed{}-case{}.txt", p.id, o.seed, case));
        let mut text = format!(
            "property: {}\nseed: {}\ntier: {}\ncase: {}\nwhat: {}\nreplay: {} replay {}\n",
            p.id,
            o.seed,
            if o.thorough { "thorough" } else { "quick" },
            case,
            msg,
            exe.display(),
            path.display(),
        );
        // the details of the case, from a separate process because it could crash
        let out = Command::new("timeout")
            .arg("60")
            .arg(&exe)
            .arg("dump")
            .arg(p.id)
            .arg(case.to_string())
            .env("RV_SEED", o.seed.to_string())
            .env("RV_TIER", if o.thorough { "thorough" } else { "quick" })
            .stdin(Stdio::null())
            .output();
        if let Ok(out) = out {
            text.push_str("\n--- details ---\n");
            text.push_str(&clip(&String::from_utf8_lossy(&out.stdout), 200_000));
        }
        let _ = fs::write(&path, text);
        replay = Some(path);
    }

    if let Some(ref ev) = o.evidence {
        let mut s = String::from("{\n");
        s.push_str(&format!(" \"property\": {},\n", json_str(p.id)));
        s.push_str(&format!(
            " \"tier\": \"{}\",\n",
            if o.thorough { "thorough" } else { "quick" }
        ));
        s.push_str(&format!(" \"seed\": {},\n", o.seed));
        s.push_str(&format!(" \"level\": \"{}\",\n", p.level));
        s.push_str(" \"coverage\": {\n");
        s.push_str(&format!("  \"evaluations\": {},\n", evals));
        s.push_str(&format!("  \"distinct_nontrivial\": {},\n", distinct.len()));
        s.push_str(&format!("  \"rule\": {},\n", json_str(p.rule)));
        samples.sort();
        let pick: Vec<String> = samples.iter().take(6).map(|x| json_str(&clip(x, 1200))).collect();
        s.push_str(&format!("  \"samples\": [{}],\n", pick.join(", ")));
        let c: Vec<String> = counters
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect();
        s.push_str(&format!("  \"observed\": {{{}}},\n", c.join(", ")));
        let c: Vec<String> = maxes
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect();
        s.push_str(&format!("  \"maxima\": {{{}}},\n", c.join(", ")));
        s.push_str(&format!("  \"worker_processes\": {},\n", o.jobs));
        s.push_str(&format!("  \"build\": {}\n", json_str(&o.tag)));
        s.push_str(" },\n");
        let a: Vec<String> = p.assumptions.iter().map(|x| json_str(x)).collect();
        s.push_str(&format!(" \"assumptions\": [{}],\n", a.join(", ")));
        s.push_str(&format!(" \"wall_s\": {:.2},\n", wall));
        s.push_str(&format!(" \"violations\": {}\n}}\n", viol.len()));
        if let Some(d) = ev.parent() {
            let _ = fs::create_dir_all(d);
        }
        let tmp = ev.with_extension("tmp");
        if fs::write(&tmp, s).and_then(|_| fs::rename(&tmp, ev)).is_err() {
            errors.push("cannot write the evidence file".into());
        }
    }

    let mut out = std::io::stdout();
    let _ = writeln!(
        out,
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s [{}]",
        p.id,
        if o.thorough { "thorough" } else { "quick" },
        evals,
        distinct.len(),
        wall,
        o.tag
    );
    for (k, v) in &counters {
        let _ = writeln!(out, "  {} = {}", k, v);
    }
    for (k, v) in &maxes {
        let _ = writeln!(out, "  max {} = {}", k, v);
    }
    if let Some(path) = replay {
        for (c, m) in viol.iter().take(3) {
            let _ = writeln!(out, "case {}: {}", c, clip(m, 1500));
        }
        let _ = writeln!(out, "VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(5) {
            let _ = writeln!(out, "CHECK ERROR: {}", e);
        }
        return 2;
    }
    0
}
