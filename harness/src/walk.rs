//! A small workload for interpreters (Miri): few records, every public query, from several threads.
//! The foreign functions that Miri does not know are given here.

use crate::be::Mem;
use crate::bworld::{self, WCfg};
use crate::util::Rng;
use crate::world::Cfg;
use std::thread;

#[cfg(miri)]
mod shims {
    use libc::{c_int, c_long, time_t, tm};

    fn days(y: i64, m: i64, d: i64) -> i64 {
        let y = if m <= 2 { y - 1 } else { y };
        let era = y.div_euclid(400);
        let yoe = y.rem_euclid(400);
        let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
        era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
    }

    #[no_mangle]
    unsafe extern "C" fn timegm(t: *mut tm) -> time_t {
        let t = unsafe { &*t };
        days(t.tm_year as i64 + 1900, t.tm_mon as i64 + 1, t.tm_mday as i64) * 86_400
            + t.tm_hour as i64 * 3600
            + t.tm_min as i64 * 60
            + t.tm_sec as i64
    }

    #[no_mangle]
    unsafe extern "C" fn gmtime_r(s: *const time_t, out: *mut tm) -> *mut tm {
        let s = unsafe { *s };
        let (day, rest) = (s.div_euclid(86_400), s.rem_euclid(86_400));
        let z = day + 719_468;
        let era = z.div_euclid(146_097);
        let doe = z.rem_euclid(146_097);
        let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
        let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        let mp = (5 * doy + 2) / 153;
        let d = doy - (153 * mp + 2) / 5 + 1;
        let m = if mp < 10 { mp + 3 } else { mp - 9 };
        let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
        let o = unsafe { &mut *out };
        o.tm_year = (y - 1900) as c_int;
        o.tm_mon = (m - 1) as c_int;
        o.tm_mday = d as c_int;
        o.tm_hour = (rest / 3600) as c_int;
        o.tm_min = (rest / 60 % 60) as c_int;
        o.tm_sec = (rest % 60) as c_int;
        o.tm_wday = (day + 4).rem_euclid(7) as c_int;
        o.tm_yday = (day - days(y, 1, 1)) as c_int;
        o.tm_isdst = 0;
        o.tm_gmtoff = 0 as c_long;
        out
    }

    #[no_mangle]
    unsafe extern "C" fn tzset() {}
}

/// Backups of `seed`, each alone and then all at once from `threads` threads.
pub fn walk(seed: u64, threads: u64) -> Result<String, String> {
    let cfg = WCfg {
        chains: 1,
        snaps: 2,
        fs: Cfg {
            ops: 2,
            max_nodes: 3,
            text: true,
            sane: true,
            noise: false,
            small_bodies: true,
        },
        plain_enc: true,
        overlap: false,
        ..WCfg::normal()
    };
    let mut r = Rng::new(seed);
    let w = bworld::build(&mut r, &cfg);
    let xs = w.expected();
    let entries = |b: &ruplicity::Backup<Mem>| -> Result<usize, String> {
        let n = bworld::check_all(b, &xs, true)?;
        let ss = b.snapshots().map_err(|e| e.to_string())?;
        let mut text = ss.as_collections().to_string();
        for s in ss {
            if let Ok(e) = s.entries() {
                text.push_str(&e.to_string());
            }
        }
        Ok(n + text.len())
    };
    let alone = entries(&bworld::open(bworld::mem(&w))?)?;
    let all: Vec<Result<usize, String>> = thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| sc.spawn(|| entries(&bworld::open(bworld::mem(&w))?)))
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())))
            .collect()
    });
    for a in &all {
        match a {
            Ok(n) if *n == alone => (),
            Ok(n) => return Err(format!("{} entries and characters in a thread, {} alone", n, alone)),
            Err(m) => return Err(m.clone()),
        }
    }
    // damaged bytes: only the interpreter judges
    let mut bad = w.clone();
    for data in bad.files.values_mut() {
        let mut d = data.to_vec();
        for _ in 0..3 {
            if !d.is_empty() {
                let i = r.usize(d.len());
                d[i] ^= 1 << r.below(8);
            }
        }
        *data = std::sync::Arc::new(d);
    }
    let b = bworld::open(bworld::mem(&bad))?;
    let mut n = 0;
    for s in bworld::snaps(&b)? {
        n += s.entries().map_or(0, |e| e.as_signature().count());
        n += s.manifest().map_or(0, |m| m.last_volume_index());
    }
    Ok(format!("{} snapshots, {} entries and characters, {} from damaged files, {} threads", xs.len(), alone, n, threads))
}
