//! Small independent helpers: random numbers, hashing, calendar arithmetic, text escaping.

#[derive(Clone, Debug)]
pub struct Rng {
    a: u64,
    b: u64,
    /// decisions given from outside (the input of a coverage-guided run), before the random ones
    feed: Vec<u8>,
    at: usize,
}

use crate::dict;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let a = mix(seed);
        let b = mix(a ^ 0x5DEE_CE66_D1CE_CAFE);
        Rng {
            a,
            b: b | 1,
            feed: Vec::new(),
            at: 0,
        }
    }
    /// every two bytes are one decision; random numbers follow when they are used up
    pub fn fed(data: &[u8]) -> Rng {
        let mut h = Fnv::new();
        h.add(data);
        let mut r = Rng::new(h.0);
        r.feed = data.to_vec();
        r
    }
    pub fn next(&mut self) -> u64 {
        if self.at + 2 <= self.feed.len() {
            let w = u64::from(self.feed[self.at]) << 8 | u64::from(self.feed[self.at + 1]);
            self.at += 2;
            return w << 48 | (mix(w) >> 16);
        }
        // xorshift128+
        let mut x = self.a;
        let y = self.b;
        self.a = y;
        x ^= x << 23;
        self.b = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.b.wrapping_add(y)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        if n > 8 {
            if let Some(v) = self.special(32) {
                if v < n {
                    return v;
                }
            }
        }
        (((self.next() >> 11) as u128 * n as u128) >> 53) as u64
    }
    /// sometimes, a number that a change of the library made special (see dict.rs)
    pub fn special(&mut self, den: u64) -> Option<u64> {
        let d = dict::get();
        if d.ints.is_empty() || (self.next() >> 40) % den != 0 {
            return None;
        }
        let v = d.ints[(self.next() >> 40) as usize % d.ints.len()];
        Some(match (self.next() >> 40) % 4 {
            0 => v.wrapping_sub(1),
            1 => v.wrapping_add(1),
            _ => v,
        })
    }
    /// the given count or length, or sometimes a special one up to the given limit
    pub fn count(&mut self, usual: usize, max: usize) -> usize {
        match self.special(6) {
            Some(v) if v >= 1 && v <= max as u64 => v as usize,
            _ => usual,
        }
    }
    /// sometimes, a text that a change of the library made special
    pub fn special_text(&mut self, den: u64) -> Option<Vec<u8>> {
        let d = dict::get();
        if d.strs.is_empty() || (self.next() >> 40) % den != 0 {
            return None;
        }
        let mut v = d.strs[(self.next() >> 40) as usize % d.strs.len()].clone();
        match (self.next() >> 40) % 8 {
            0 => v.extend_from_slice(b"a"),
            1 => v.insert(0, b'a'),
            2 => {
                v.pop();
            }
            _ => {}
        }
        Some(v)
    }
    pub fn special_kind(&mut self, den: u64) -> Option<&'static str> {
        let d = dict::get();
        if d.kinds.is_empty() || (self.next() >> 40) % den != 0 {
            return None;
        }
        Some(&d.kinds[(self.next() >> 40) as usize % d.kinds.len()])
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if span > 8 {
            if let Some(v) = self.special(32) {
                for v in [v as i64, lo.wrapping_add(v as i64)] {
                    if lo <= v && v <= hi {
                        return v;
                    }
                }
            }
        }
        (lo as i128 + ((self.next() as u128 * span) >> 64) as i128) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.usize(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    /// a 64-bit number with a random bit length: small numbers and extreme ones are both likely
    pub fn wild(&mut self) -> u64 {
        let bits = self.below(65) as u32;
        match self.below(8) {
            0 => 0,
            1 => u64::MAX >> self.below(64),
            2 => 1u64.checked_shl(bits).unwrap_or(0),
            3 => 1u64.checked_shl(bits).unwrap_or(0).wrapping_sub(1),
            _ => {
                if bits == 0 {
                    0
                } else {
                    self.next() >> (64 - bits)
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
    pub fn add(&mut self, b: &[u8]) -> &mut Self {
        for &x in b {
            self.0 ^= x as u64;
            self.0 = self.0.wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.num(b.len() as u64)
    }
    pub fn num(&mut self, n: u64) -> &mut Self {
        self.0 = mix(self.0 ^ n);
        self
    }
}
pub fn hash(b: &[u8]) -> u64 {
    Fnv::new().add(b).0
}

/// Days since 1970-01-01 of a proleptic Gregorian date, by counting years and months.
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let leaps = |y: i64| y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400);
    let y1 = y - 1;
    let mut days = y1 * 365 + leaps(y1) - (1969 * 365 + leaps(1969));
    for mm in 1..m {
        days += month_len(y, mm);
    }
    days + d - 1
}
pub fn is_leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ => {
            if is_leap(y) {
                29
            } else {
                28
            }
        }
    }
}
pub fn epoch(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
    days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Civil {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
}

pub fn civil(t: i64) -> Civil {
    let days = t.div_euclid(86400);
    let secs = t.rem_euclid(86400);
    // guess the year, then correct
    let mut y = 1970 + (days as i128 * 400 / 146_097) as i64;
    while days_from_civil(y, 1, 1) > days {
        y -= 1;
    }
    while days_from_civil(y + 1, 1, 1) <= days {
        y += 1;
    }
    let mut rest = days - days_from_civil(y, 1, 1);
    let mut mo = 1;
    while rest >= month_len(y, mo) {
        rest -= month_len(y, mo);
        mo += 1;
    }
    Civil {
        y,
        mo,
        d: rest + 1,
        h: secs / 3600,
        mi: secs / 60 % 60,
        s: secs % 60,
    }
}

pub const MONTHS: [&str; 12] = [
    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
];

/// duplicity's time stamp, upper case as in file names
pub fn stamp(t: i64) -> String {
    let c = civil(t);
    format!(
        "{:04}{:02}{:02}T{:02}{:02}{:02}Z",
        c.y, c.mo, c.d, c.h, c.mi, c.s
    )
}

/// Strict reading of a lower-case stamp.
pub fn parse_stamp(s: &[u8]) -> Option<i64> {
    if s.len() != 16 || s[8] != b't' || s[15] != b'z' {
        return None;
    }
    let num = |a: usize, b: usize| -> Option<i64> {
        let mut v = 0i64;
        for &c in &s[a..b] {
            if !(b'0'..=b'9').contains(&c) {
                return None;
            }
            v = v * 10 + (c - b'0') as i64;
        }
        Some(v)
    };
    let (y, mo, d) = (num(0, 4)?, num(4, 6)?, num(6, 8)?);
    let (h, mi, se) = (num(9, 11)?, num(11, 13)?, num(13, 15)?);
    if mo < 1 || mo > 12 || d < 1 || d > month_len(y, mo) || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    Some(epoch(y, mo, d, h, mi, se))
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        if (0x20..0x7f).contains(&c) && c != b'\\' {
            s.push(c as char);
        } else {
            s.push_str(&format!("\\x{:02x}", c));
        }
    }
    s
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let mut o: String = s.chars().take(n).collect();
        o.push_str("...");
        o
    }
}

/// A writer that fails once it has taken so many bytes.
pub struct Short {
    pub left: usize,
    pub failed: bool,
}

impl Short {
    pub fn new(left: usize) -> Self {
        Short {
            left,
            failed: false,
        }
    }
}

impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.failed = true;
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        Ok(())
    }
}

/// Displays into a writer that takes less than the whole text: this must be reported.
pub fn cut_display<D: std::fmt::Display>(d: D, whole: usize, r: &mut Rng) -> Result<(), String> {
    use std::fmt::Write;
    if whole == 0 {
        return Ok(());
    }
    let mut w = Short::new(r.usize(whole));
    let res = write!(w, "{}", d);
    if !w.failed {
        return Err(format!("displayed less than the {} bytes of before", whole));
    }
    if res.is_ok() {
        return Err("the writer failed, but the display reported success".to_owned());
    }
    Ok(())
}
