//! Coverage-guided driver of the monitors of /verif/harness. RV_PROP names the property.
#![no_main]
#![allow(dead_code, unused_imports, unused_variables)]

extern crate ruplicity;

#[path = "../../harness/src/be.rs"]
mod be;
#[path = "../../harness/src/bworld.rs"]
mod bworld;
#[path = "../../harness/src/ctx.rs"]
mod ctx;
#[path = "../../harness/src/dict.rs"]
mod dict;
#[path = "../../harness/src/hooks.rs"]
mod hooks;
#[path = "../../harness/src/manif.rs"]
mod manif;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/names.rs"]
mod names;
#[path = "../../harness/src/props/mod.rs"]
mod props;
#[path = "../../harness/src/sup.rs"]
mod sup;
#[path = "../../harness/src/tarw.rs"]
mod tarw;
#[path = "../../harness/src/util.rs"]
mod util;
#[path = "../../harness/src/world.rs"]
mod world;

use std::sync::OnceLock;

/// std::chrono::system_clock::now, for libFuzzer: the true time, whatever the monitors show the
/// library
#[export_name = "_ZNSt6chrono3_V212system_clock3nowEv"]
pub unsafe extern "C" fn system_clock_now() -> i64 {
    let mut ts: libc::timespec = std::mem::zeroed();
    libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_REALTIME, &mut ts);
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}

static PROP: OnceLock<sup::Prop> = OnceLock::new();

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let p = PROP.get_or_init(|| {
        sup::install_panic_hook();
        let id = std::env::var("RV_PROP").unwrap_or_default();
        props::all().into_iter().find(|p| p.id == id).expect("RV_PROP")
    });
    if data.len() < 2 {
        return;
    }
    let idx = u64::from(data[0]) << 8 | u64::from(data[1]);
    let mut ctx = ctx::Ctx::new(false);
    ctx.replaying = std::env::var("RV_SHOW").is_ok();
    let r = sup::run_with(p, &mut ctx, util::Rng::fed(&data[2..]), idx);
    for d in &ctx.dump {
        eprintln!("{}", d);
    }
    match r {
        sup::Out::Ok => {}
        sup::Out::Violation(m) => {
            eprintln!("RV-VIOLATION {}: {}", p.id, m.replace('\n', "\\n"));
            std::process::abort();
        }
        // a generator that the decisions drove into a corner decides nothing
        sup::Out::Harness(m) => {
            if std::env::var("RV_SHOW").is_ok() {
                eprintln!("RV-HARNESS {}: {}", p.id, m);
            }
        }
    }
});
