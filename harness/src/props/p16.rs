//! P16 (time stamps), P17 (display of times).

use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::hooks;
use crate::names::{self, Case, Part};
use crate::sup::Prop;
use crate::util::{civil, days_from_civil, epoch, esc, is_leap, month_len, parse_stamp, stamp, Civil, Rng, MONTHS};
use ruplicity::collections::Collections;
use ruplicity::timefmt::{parse_time_str, TimeDisplay};
use std::sync::OnceLock;

extern crate time as time01;
use self::time01::Timespec;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P16",
            f: p16,
            quick: 3653,
            thorough: 36521,
            level: "exploration",
            rule: "a case is a block of 1000 (thorough: 100, with more seconds of each) consecutive days, so that the quick tier decodes a stamp of every day of years 1 to 9999 and the last second of every month, in a random process time zone, alone and in file names in random case, plus single-character corruptions, splices and random shapes; distinct by text",
            need: &[("stamps decoded", 3_600_000), ("stamps in file names", 40_000), ("texts that must be rejected", 1_000_000), ("corrupted names that must be ignored", 20_000), ("time zones", 3_000)],
            assumptions: &["the second 60 of a minute is not a valid time"],
        },
        Prop {
            id: "P17",
            f: p17,
            quick: 150000,
            thorough: 600000,
            level: "exploration",
            rule: "a case is a time zone (every zone of the system's database, fixed offsets, and rules with daylight saving computed by the harness), a current time, and instants around it, around its new year and its zone changes, and anywhere else up to the 64-bit extremes, displayed in UTC and local time; distinct by (zone, now, instant), non-trivial if the display shows a time of day",
            need: &[("displays compared", 500_000), ("shown with time of day", 150_000), ("decided by the year of the zone", 3_000), ("not displayable", 10_000), ("zones of the harness's own rules", 2_000), ("clock readings served", 400_000), ("shown at another moment than made", 50_000)],
            assumptions: &["the C library converts to the zones of the system's database; fixed offsets and rules are computed by the harness", "between 2.0 and 2.2 billion years from the epoch both answers are accepted"],
        },
    ]
}

/// The names of the zones of this system.
fn zones() -> &'static Vec<String> {
    static Z: OnceLock<Vec<String>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut v = Vec::new();
        if let Ok(t) = std::fs::read_to_string("/usr/share/zoneinfo/tzdata.zi") {
            for l in t.lines() {
                let w: Vec<&str> = l.split(' ').collect();
                match w[0] {
                    "Z" if w.len() > 1 => v.push(w[1].to_owned()),
                    "L" if w.len() > 2 => v.push(w[2].to_owned()),
                    _ => (),
                }
            }
        }
        if v.is_empty() {
            for a in ["Europe/Rome", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Australia/Lord_Howe"] {
                v.push(a.to_owned());
            }
        }
        v.retain(|z| std::path::Path::new("/usr/share/zoneinfo").join(z).exists());
        v.sort();
        v
    })
}

/// A zone whose rule the harness computes itself.
#[derive(Clone, Debug)]
struct Rule {
    /// seconds east of Greenwich
    std: i64,
    dst: Option<(i64, (i64, i64, i64), (i64, i64, i64))>,
}

fn hms(x: i64) -> String {
    let a = x.abs();
    let s = if x < 0 { "-" } else { "" };
    if a % 60 != 0 {
        format!("{}{}:{:02}:{:02}", s, a / 3600, a / 60 % 60, a % 60)
    } else {
        format!("{}{}:{:02}", s, a / 3600, a / 60 % 60)
    }
}

impl Rule {
    fn random(r: &mut Rng) -> Rule {
        let std = match r.below(4) {
            0 => r.range(-12, 14) * 3600,
            1 => r.range(-48, 56) * 900,
            2 => r.range(-86399, 86399),
            _ => r.range(-24 * 60 + 1, 24 * 60 - 1) * 60,
        };
        let dst = if r.bool() && std.abs() < 80_000 {
            let a = (r.range(2, 6), r.range(1, 5), r.range(0, 6));
            let b = (r.range(7, 11), r.range(1, 5), r.range(0, 6));
            let off = std + *r.pick(&[3600, 1800, 7200]);
            if r.bool() {
                Some((off, a, b))
            } else {
                // southern hemisphere
                Some((off, b, a))
            }
        } else {
            None
        };
        Rule { std, dst }
    }
    fn tz(&self) -> String {
        match self.dst {
            None => format!("XST{}", hms(-self.std)),
            Some((off, a, b)) => format!(
                "XST{}XDT{},M{}.{}.{},M{}.{}.{}",
                hms(-self.std),
                hms(-off),
                a.0,
                a.1,
                a.2,
                b.0,
                b.1,
                b.2
            ),
        }
    }
    /// the offset in force at an instant
    fn offset(&self, t: i64) -> i64 {
        let (off, a, b) = match self.dst {
            None => return self.std,
            Some(x) => x,
        };
        let y = civil(t + self.std).y;
        // the changes happen at 2 o'clock of the time in force before
        let begin = nth_weekday(y, a) * 86400 + 7200 - self.std;
        let end = nth_weekday(y, b) * 86400 + 7200 - off;
        let dst = if begin < end {
            t >= begin && t < end
        } else {
            t >= begin || t < end
        };
        if dst {
            off
        } else {
            self.std
        }
    }
    /// some changes of offset around an instant
    fn changes(&self, t: i64) -> Vec<i64> {
        match self.dst {
            None => vec![],
            Some((off, a, b)) => {
                let y = civil(t).y;
                vec![
                    nth_weekday(y, a) * 86400 + 7200 - self.std,
                    nth_weekday(y, b) * 86400 + 7200 - off,
                ]
            }
        }
    }
}

/// the day of the week-th (5: last) given day of the week of a month
fn nth_weekday(y: i64, (m, w, d): (i64, i64, i64)) -> i64 {
    let first = days_from_civil(y, m, 1);
    let wd = (first + 4).rem_euclid(7);
    let mut day = first + (d - wd).rem_euclid(7) + (w - 1) * 7;
    while day >= first + month_len(y, m) {
        day -= 7;
    }
    day
}

pub fn random_tz(r: &mut Rng) -> String {
    match r.below(4) {
        0 => "UTC".to_owned(),
        1 => Rule::random(r).tz(),
        _ => r.pick(zones()).clone(),
    }
}

fn must_reject(s: &str, c: &mut Ctx) -> R {
    let got = parse_time_str(s).map(|t| (t.sec, t.nsec));
    let want = parse_stamp(s.as_bytes()).map(|t| (t, 0));
    ensure!(
        got == want,
        "{:?} decodes to {:?} instead of {:?}",
        s,
        got,
        want
    );
    if want.is_none() {
        c.count("texts that must be rejected", 1);
    } else {
        c.count("corruptions that are other valid stamps", 1);
    }
    Ok(())
}

fn corrupt(s: &str, r: &mut Rng) -> String {
    let mut b: Vec<char> = s.chars().collect();
    let pool: Vec<char> = "0123456789 tTzZ+-:./xa\u{e9}\u{660}\n\0".chars().collect();
    let at = r.usize(b.len());
    match r.below(9) {
        0 => {
            b.remove(at);
        }
        1 => {
            let x = *r.pick(&pool);
            b.insert(at, x);
        }
        2 => {
            let x = *r.pick(&pool);
            b.push(x);
        }
        3 => {
            let n = r.usize(b.len());
            b.truncate(n);
        }
        4 => {
            // impossible fields
            let f = *r.pick(&[(4, 2), (6, 2), (9, 2), (11, 2), (13, 2)]);
            let v: Vec<char> = format!("{:02}", r.range(0, 99)).chars().collect();
            b[f.0] = v[0];
            b[f.0 + 1] = v[1];
        }
        5 => {
            let j = r.usize(b.len());
            b.swap(at, j);
        }
        6 => {
            // one digit less, the rest shifted
            let x = b.remove(at);
            if r.bool() {
                b.push(x);
            } else {
                b.insert(0, x);
            }
        }
        _ => {
            b[at] = *r.pick(&pool);
        }
    }
    b.into_iter().collect()
}

fn p16(c: &mut Ctx) -> R {
    let tz = random_tz(&mut c.rng);
    hooks::set_tz(&tz);
    c.count("time zones", 1);
    c.note(|| format!("TZ={}", tz));
    let at = |e: String| format!("TZ={}: {}", tz, e);
    let first = days_from_civil(1, 1, 1);
    let last = days_from_civil(9999, 12, 31);
    let (block, per_day) = if c.thorough { (100, 40) } else { (1000, 1) };
    let lo = first + c.idx as i64 * block;
    let hi = (lo + block - 1).min(last);
    let mut prev: Option<i64> = None;
    for day in lo..=hi {
        for k in 0..per_day {
            let s = if k == 0 && c.rng.chance(1, 8) {
                *c.rng.pick(&[0, 86399])
            } else {
                c.rng.below(86400) as i64
            };
            let t = day * 86400 + s;
            let text = stamp(t).to_lowercase();
            let got = parse_time_str(&text).map(|t| (t.sec, t.nsec));
            ensure!(
                got == Some((t, 0)),
                "TZ={}: {} decodes to {:?} instead of {}",
                tz,
                text,
                got,
                t
            );
            c.count("stamps decoded", 1);
            if per_day == 1 {
                ensure!(prev.map_or(true, |p| p < t), "order");
                prev = Some(t);
            }
        }
        let x = civil(day * 86400);
        if x.d == month_len(x.y, x.mo) {
            // the last second of the month is valid, the day after is not
            let t = day * 86400 + 86399;
            let text = stamp(t).to_lowercase();
            must_reject(&text, c).map_err(at)?;
            let bad = format!("{:04}{:02}{:02}t000000z", x.y, x.mo, x.d + 1);
            must_reject(&bad, c).map_err(at)?;
        }
        if c.rng.chance(1, 3) {
            let t = day * 86400 + c.rng.below(86400) as i64;
            let s = corrupt(&stamp(t).to_lowercase(), &mut c.rng);
            must_reject(&s, c).map_err(at)?;
            // upper case is for file names only
            let s = stamp(t);
            must_reject(&s, c).map_err(at)?;
            c.distinct_of(&[s.as_bytes()]);
        }
    }
    // February 29th of every year of the block, leap or not
    for y in civil(lo * 86400).y..=civil(hi * 86400).y {
        let s = format!("{:04}0229t120000z", y);
        let got = parse_time_str(&s).map(|t| t.sec);
        let want = if is_leap(y) {
            Some(epoch(y, 2, 29, 12, 0, 0))
        } else {
            None
        };
        ensure!(got == want, "TZ={}: {} decodes to {:?} instead of {:?}", tz, s, got, want);
    }
    // in file names
    let pick_t = |r: &mut Rng| r.range(lo * 86400, hi * 86400 + 86398);
    for _ in 0..3 {
        let r = &mut c.rng;
        let mut ts: Vec<i64> = (0..6).map(|_| pick_t(r)).collect();
        ts.sort();
        ts.dedup();
        let mut files = Vec::new();
        for (i, t) in ts.iter().enumerate() {
            let id = if i % 2 == 0 { (false, *t, *t) } else { (true, ts[i - 1], *t) };
            let case = *r.pick(&[Case::Upper, Case::Lower, Case::Mixed]);
            for p in [Part::Man, Part::Sig, Part::Vol(1)] {
                files.push(names::make(id, p, false, "", case, r));
            }
        }
        r.shuffle(&mut files);
        let coll = Collections::from_filenames(files.iter().map(|f| &f.text[..]));
        let m = names::model(&files);
        names::check_chains(&coll, &m, |_, _| Ok(())).map_err(at)?;
        ensure!(coll.num_snapshots() == ts.len(), "TZ={}: {} snapshots from {:?}", tz, coll.num_snapshots(), files);
        c.count("stamps in file names", files.len() as u64);
    }
    for _ in 0..2 {
        // a name with a corrupted stamp describes nothing
        let mut v: Vec<String> = Vec::new();
        for _ in 0..4 {
            let r = &mut c.rng;
            let t = pick_t(r);
            let case = *r.pick(&[Case::Upper, Case::Lower, Case::Mixed]);
            let id = (r.bool(), t, t + 1);
            let part = *r.pick(&[Part::Man, Part::Sig, Part::Vol(3)]);
            let mut f = names::make(id, part, false, "", case, r).text;
            let s: Vec<usize> = f
                .char_indices()
                .filter(|(_, ch)| ch.is_ascii_digit())
                .map(|(i, _)| i)
                .collect();
            let at = s[0]; // the first stamp
            let old = f[at..at + 16].to_owned();
            let new = corrupt(&old, r);
            if new.contains('/') || new.contains('\0') {
                continue;
            }
            if new.len() == 16 && parse_stamp(new.to_lowercase().as_bytes()).is_some() {
                continue;
            }
            if new.is_empty() || new.starts_with('\n') {
                continue;
            }
            f.replace_range(at..at + 16, &new);
            v.push(f);
        }
        let coll = Collections::from_filenames(&v);
        ensure!(
            coll.num_snapshots() == 0 && coll.signature_chains().count() == 0,
            "TZ={}: names with impossible stamps describe {} snapshots and {} signature chains: {:?}",
            tz,
            coll.num_snapshots(),
            coll.signature_chains().count(),
            v.iter().map(|s| esc(s.as_bytes())).collect::<Vec<_>>()
        );
        c.count("corrupted names that must be ignored", v.len() as u64);
    }
    c.sample(|| format!("TZ={}: days {} to {}", tz, stamp(lo * 86400), stamp(hi * 86400)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// What the C library tells about a local time; None if the year does not fit.
pub fn libc_local(t: i64) -> Option<Civil> {
    unsafe {
        let mut tm: libc::tm = std::mem::zeroed();
        let tt = t as libc::time_t;
        if libc::localtime_r(&tt, &mut tm).is_null() {
            return None;
        }
        Some(Civil {
            y: tm.tm_year as i64 + 1900,
            mo: tm.tm_mon as i64 + 1,
            d: tm.tm_mday as i64,
            h: tm.tm_hour as i64,
            mi: tm.tm_min as i64,
            s: tm.tm_sec as i64,
        })
    }
}

pub const NEAR: i64 = 31_556_952 * 1_990_000_000;
pub const FAR: i64 = 31_556_952 * 2_200_000_000;

/// Checks a displayed time against a broken-down instant and the current year.
pub fn check_display(text: &str, t: i64, at: Option<Civil>, now_year: i64) -> Result<bool, String> {
    if text == "?" && (t <= -NEAR || t >= NEAR) {
        return Ok(false);
    }
    let x = match at {
        Some(x) if t > -FAR && t < FAR => x,
        _ => {
            return Err(format!("shows as {:?} instead of '?'", text));
        }
    };
    let mon = MONTHS[(x.mo - 1) as usize];
    if x.y == now_year {
        let want = format!("{} {:02} {:02}:{:02}", mon, x.d, x.h, x.mi);
        ensure!(text == want, "shows as {:?} instead of {:?}", text, want);
        Ok(true)
    } else {
        if x.y >= 1000 && x.y <= 9999 {
            let want = format!("{} {:02}  {}", mon, x.d, x.y);
            ensure!(text == want, "shows as {:?} instead of {:?}", text, want);
        } else {
            // how unusual years are padded is not claimed
            let w: Vec<&str> = text.split_whitespace().collect();
            let day = w.get(1).and_then(|d| d.parse::<i64>().ok());
            let year = w.get(2).and_then(|d| d.parse::<i64>().ok());
            ensure!(
                w.len() == 3 && w[0] == mon && day == Some(x.d) && year == Some(x.y),
                "shows as {:?} instead of {:?}",
                text,
                format!("{} {:02}  {}", mon, x.d, x.y)
            );
        }
        Ok(false)
    }
}

fn p17(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let rule = if r.chance(1, 3) { Some(Rule::random(r)) } else { None };
    let tz = match rule {
        Some(ref x) => x.tz(),
        None => match r.below(8) {
            0 => "UTC".to_owned(),
            _ => r.pick(zones()).clone(),
        },
    };
    hooks::set_tz(&tz);
    let year0 = |y: i64| epoch(y, 1, 1, 0, 0, 0);
    let now = match r.below(8) {
        0 => r.range(0, 4_000_000_000),
        1 | 2 => {
            // around a new year
            let y = r.range(1971, 2100);
            year0(y) + r.range(-90_000, 90_000)
        }
        3 => year0(r.range(1971, 2100)) + *r.pick(&[-1, 0, 1]),
        4 => r.range(-3_000_000_000, 0),
        5 => r.range(4_000_000_000, 200_000_000_000),
        _ => r.range(1_400_000_000, 1_900_000_000),
    };
    hooks::fake_now(Some(now));
    let reads = hooks::clock_reads();
    let local = |t: i64| -> Option<Civil> {
        match rule {
            // the C library does not apply rules with daylight saving before 1971, nor correctly to
            // years that make its products overflow
            Some(ref x) if (t > 40_000_000 && t < 1_000_000_000_000) || x.dst.is_none() => {
                if t > -FAR && t < FAR {
                    Some(civil(t + x.offset(t)))
                } else {
                    None
                }
            }
            _ => libc_local(t),
        }
    };
    let utc_year = civil(now).y;
    let local_year = match local(now) {
        Some(x) => x.y,
        None => crate::hbug!("no local time for {}", now),
    };
    let mut ts: Vec<i64> = Vec::new();
    for _ in 0..16 {
        let base = match r.below(10) {
            0 => now,
            1 | 2 => year0(utc_year + r.range(-1, 2)) + r.range(-50_000, 50_000),
            3 | 4 => year0(utc_year) + r.range(0, 31_535_999),
            5 => r.range(0, 253_402_300_799),
            6 => r.range(-62_167_219_200, 0),
            7 => r.next() as i64 >> r.below(64),
            8 => *r.pick(&[i64::MIN, i64::MAX, NEAR, -NEAR, FAR, -FAR, 0, -1, i64::MAX - 86400, i64::MIN + 86400, 1 << 32, i32::MAX as i64, i32::MIN as i64]),
            _ => match rule {
                Some(ref x) => {
                    let v = x.changes(now);
                    if v.is_empty() {
                        now
                    } else {
                        r.pick(&v) + r.range(-7300, 7300)
                    }
                }
                None => now + r.range(-400 * 86400, 400 * 86400),
            },
        };
        ts.push(base);
    }
    let n = ts.len();
    let (mut shown, mut by_zone, mut no, mut late) = (0, 0, 0, 0);
    c.note(|| format!("TZ={} now={} instants {:?}", tz, now, ts));
    for t in ts {
        let nsec = if c.rng.bool() { 0 } else { c.rng.below(1_000_000_000) as i32 };
        let spec = Timespec { sec: t, nsec };
        // a display can be made long before it is shown: the current year is the one then
        let earlier = c.rng.chance(1, 3);
        if earlier {
            let back = *c.rng.pick(&[1, 60, 86_400, 40_000_000, -40_000_000, 1_000_000_000]);
            hooks::fake_now(Some(now - back));
        }
        let (u, l) = (spec.into_utc_display(), spec.into_local_display());
        if earlier {
            hooks::fake_now(Some(now));
            late += 1;
        }
        let (u, l) = (u.to_string(), l.to_string());
        let cu = if t > -FAR && t < FAR { Some(civil(t)) } else { None };
        let a = check_display(&u, t, cu, utc_year)
            .map_err(|e| format!("TZ={} now={}: instant {} in UTC {}", tz, now, t, e))?;
        let cl = local(t);
        let b = check_display(&l, t, cl, local_year)
            .map_err(|e| format!("TZ={} now={}: instant {} in local time {}", tz, now, t, e))?;
        shown += a as u64 + b as u64;
        if a != b {
            by_zone += 1;
        }
        if u == "?" || l == "?" {
            no += 1;
        }
        if a || b {
            c.distinct_of(&[tz.as_bytes(), &now.to_le_bytes(), &t.to_le_bytes()]);
        }
    }
    let reads = hooks::clock_reads() - reads;
    c.count("displays compared", 2 * n as u64);
    c.count("shown with time of day", shown);
    c.count("decided by the year of the zone", by_zone);
    c.count("not displayable", no);
    c.count("shown at another moment than made", late);
    c.count("clock readings served", reads as u64);
    if rule.is_some() {
        c.count("zones of the harness's own rules", 1);
    }
    c.sample(|| format!("TZ={} now={}: {} displays", tz, now, 2 * n));
    Ok(())
}
