//! Runtime monitors for ruplicity. See DESIGN.md.

extern crate ruplicity;

mod be;
mod bworld;
mod ctx;
mod dict;
mod hooks;
mod manif;
mod model;
mod names;
mod props;
mod sup;
mod tarw;
mod util;
mod walk;
mod world;

use std::path::PathBuf;

#[global_allocator]
static A: hooks::Counting = hooks::Counting;

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

fn find(id: &str) -> Option<sup::Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| &s[..]).unwrap_or("");
    let root = std::env::var("RV_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let tier = std::env::var("RV_TIER")
        .or_else(|_| std::env::var("VERIF_TIER"))
        .unwrap_or_default();
    let mut o = sup::Opts {
        thorough: tier == "thorough",
        seed: env_u64("RV_SEED", env_u64("VERIF_SEED", 1)),
        cases: None,
        jobs: env_u64("RV_JOBS", 8),
        evidence: None,
        tag: std::env::var("RV_TAG").unwrap_or_else(|_| "overflow-checks,debug-assertions,counting-allocator".into()),
        root,
    };
    if let Ok(c) = std::env::var("RV_CASES") {
        o.cases = c.parse().ok();
    }
    if let Ok(p) = std::env::var("RV_PERCENT") {
        // a fraction of the cases of the tier
        if let (Ok(p), Some(pr)) = (p.parse::<u64>(), find(arg(2))) {
            o.cases = Some(((if o.thorough { pr.thorough } else { pr.quick }) * p / 100).max(1));
        }
    }
    let code = match arg(1) {
        "literals" => {
            print!("{}", dict::text_of(&dict::scan()));
            0
        }
        "list" => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        "run" => match find(arg(2)) {
            Some(p) => {
                if std::env::var("RV_NO_EVIDENCE").is_err() {
                    o.evidence = Some(o.root.join("evidence").join(format!("{}.json", p.id)));
                }
                sup::supervise(&p, &o)
            }
            None => {
                println!("unknown property {}", arg(2));
                2
            }
        },
        "worker" => match find(arg(2)) {
            Some(p) => {
                let (k, n) = (arg(3).parse().unwrap_or(0), arg(4).parse().unwrap_or(0));
                let dir = PathBuf::from(arg(5));
                on_stack(arg(2), move || sup::worker(&p, &o, k, n, &dir))
            }
            None => 2,
        },
        "dump" | "case" => match find(arg(2)) {
            Some(p) => {
                let n = arg(3).parse().unwrap_or(0);
                on_stack(arg(2), move || one(&p, &o, n))
            }
            None => 2,
        },
        "walk" => match walk::walk(o.seed, arg(2).parse().unwrap_or(2)) {
            Ok(m) => {
                println!("WALK {}: {}", o.seed, m);
                0
            }
            Err(m) => {
                println!("WALK {}: VIOLATED: {}", o.seed, m);
                1
            }
        },
        "replay" => replay(&o, arg(2)),
        _ => {
            println!("usage: rv list | run ID | case ID N | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

/// P12 runs on a small stack, so that a recursion over the input (over its records, paths, lines,
/// ...) shows with inputs of a few thousand elements. This build keeps recursion as it is written.
fn on_stack<F: FnOnce() -> i32 + Send + 'static>(id: &str, f: F) -> i32 {
    let size = if id != "P12" {
        return f();
    } else if hooks::timed() {
        STACK
    } else {
        // the sanitizers enlarge the frames
        8 * STACK
    };
    match std::thread::Builder::new().stack_size(size).spawn(f) {
        Ok(h) => h.join().unwrap_or(2),
        Err(e) => {
            println!("thread: {}", e);
            2
        }
    }
}

const STACK: usize = 384 * 1024;

fn one(p: &sup::Prop, o: &sup::Opts, idx: u64) -> i32 {
    sup::install_panic_hook();
    hooks::set_cap(sup::MEM_CAP);
    let mut ctx = ctx::Ctx::new(o.thorough);
    ctx.replaying = true;
    let r = sup::run_case(p, &mut ctx, o.seed, idx);
    for d in &ctx.dump {
        println!("{}", d);
    }
    println!("{:?}", ctx.counters);
    match r {
        sup::Out::Ok => {
            println!("case {} of {} with seed {}: holds", idx, p.id, o.seed);
            0
        }
        sup::Out::Violation(m) => {
            println!("case {} of {} with seed {}: VIOLATED: {}", idx, p.id, o.seed, m);
            1
        }
        sup::Out::Harness(m) => {
            println!("case {} of {} with seed {}: HARNESS ERROR: {}", idx, p.id, o.seed, m);
            2
        }
    }
}

fn replay(o: &sup::Opts, file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let get = |k: &str| {
        text.lines()
            .find(|l| l.starts_with(k))
            .map(|l| l[k.len()..].trim().to_owned())
            .unwrap_or_default()
    };
    let o2 = sup::Opts {
        thorough: get("tier:") == "thorough",
        seed: get("seed:").parse().unwrap_or(1),
        cases: None,
        jobs: 1,
        evidence: None,
        root: o.root.clone(),
        tag: String::new(),
    };
    match find(&get("property:")) {
        Some(p) => one(&p, &o2, get("case:").parse().unwrap_or(0)),
        None => {
            println!("not a replay file: {}", file);
            2
        }
    }
}
