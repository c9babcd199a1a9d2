//! Literals of the library's sources that are not in the list of literals.txt (the ones of the tree
//! this harness was written for). They only guide the generators towards the values that a change
//! of the library made special: sizes, counts, names, kinds of errors. The oracles do not see them.
//! On the tree of literals.txt there are none, and nothing changes.

use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
    /// variants of io::ErrorKind
    pub kinds: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(load)
}

/// The folder of the library, from the manifest this crate was built with.
fn sources() -> String {
    let toml = concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.toml");
    let text = std::fs::read_to_string(toml).unwrap_or_default();
    let path = text
        .lines()
        .filter(|l| l.starts_with("ruplicity"))
        .filter_map(|l| l.split('"').nth(1))
        .next()
        .unwrap_or("/repo");
    format!("{}/src", path)
}

pub fn scan() -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    let mut dirs = vec![std::path::PathBuf::from(sources())];
    while let Some(d) = dirs.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().map_or(false, |x| x == "rs") {
                if let Ok(b) = std::fs::read(&p) {
                    lex(&b, &mut m);
                }
            }
        }
    }
    m
}

pub fn text_of(m: &BTreeMap<String, usize>) -> String {
    m.iter().map(|(k, n)| format!("{} {}\n", n, k)).collect()
}

fn load() -> Dict {
    let known: BTreeMap<&str, usize> = include_str!("../literals.txt")
        .lines()
        .filter_map(|l| l.split_once(' '))
        .map(|(n, k)| (k, n.parse().unwrap_or(0)))
        .collect();
    let mut d = Dict::default();
    if std::env::var_os("RV_NO_DICT").is_some() {
        return d;
    }
    for (k, n) in scan() {
        if n <= known.get(&k[..]).cloned().unwrap_or(0) {
            continue;
        }
        match k.split_at(2) {
            ("i ", v) => {
                if let Ok(v) = v.parse::<u64>() {
                    d.ints.push(v);
                }
            }
            ("s ", v) => d.strs.push(unhex(v)),
            ("k ", v) => d.kinds.push(v.to_owned()),
            ("t ", v) => d.ints.push(match v {
                "u8" => 1 << 8,
                "i8" => 1 << 7,
                "u16" => 1 << 16,
                "i16" => 1 << 15,
                "u32" => 1 << 32,
                "i32" => 1 << 31,
                _ => 1 << 63,
            }),
            _ => {}
        }
    }
    // small numbers are likely anyway
    d.ints.retain(|v| *v > 3);
    d.strs.retain(|s| !s.is_empty() && s.len() <= 200);
    d
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}

fn lex(b: &[u8], m: &mut BTreeMap<String, usize>) {
    let mut add = |k: String| *m.entry(k).or_insert(0) += 1;
    let hex = |v: &[u8]| -> String { v.iter().map(|x| format!("{:02x}", x)).collect() };
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let at = |i: usize| b.get(i).cloned().unwrap_or(0);
    let mut i = 0;
    // the last integer, and the operator that follows it
    let mut last: Option<u64> = None;
    let mut op = 0u8;
    // the words before this point
    let mut words: [String; 2] = [String::new(), String::new()];
    while i < b.len() {
        let c = b[i];
        if b[i..].starts_with(b"#[cfg(test)]") {
            return;
        }
        if c == b'/' && at(i + 1) == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'/' && at(i + 1) == b'*' {
            i += 2;
            while i < b.len() && !(b[i] == b'*' && at(i + 1) == b'/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        let raw = c == b'r' && (at(i + 1) == b'"' || at(i + 1) == b'#')
            || c == b'b' && at(i + 1) == b'r' && (at(i + 2) == b'"' || at(i + 2) == b'#');
        if raw {
            let mut j = i + if c == b'b' { 2 } else { 1 };
            let mut n = 0;
            while at(j) == b'#' {
                n += 1;
                j += 1;
            }
            if at(j) == b'"' {
                j += 1;
                let s = j;
                while j < b.len() && !(b[j] == b'"' && (1..=n).all(|k| at(j + k) == b'#')) {
                    j += 1;
                }
                add(format!("s {}", hex(&b[s..j.min(b.len())])));
                i = j + 1 + n;
                last = None;
                continue;
            }
        }
        if c == b'"' {
            let mut v = Vec::new();
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                    match at(i) {
                        b'n' => v.push(b'\n'),
                        b't' => v.push(b'\t'),
                        b'r' => v.push(b'\r'),
                        b'0' => v.push(0),
                        b'x' => {
                            v.extend(unhex(&String::from_utf8_lossy(&b[i + 1..(i + 3).min(b.len())])));
                            i += 2;
                        }
                        b'\n' => {
                            while at(i + 1).is_ascii_whitespace() && i + 1 < b.len() {
                                i += 1;
                            }
                        }
                        o => v.push(o),
                    }
                } else {
                    v.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            add(format!("s {}", hex(&v)));
            last = None;
            continue;
        }
        if c == b'\'' {
            // a character, or a lifetime
            if at(i + 1) == b'\\' {
                let mut j = i + 2;
                while j < b.len() && b[j] != b'\'' {
                    j += 1;
                }
                if at(j) == b'\'' && at(j - 1) == b'\\' && at(j + 1) == b'\'' {
                    j += 1;
                }
                let body = &b[i + 2..j.min(b.len())];
                let v = match body.first() {
                    Some(b'n') => vec![b'\n'],
                    Some(b't') => vec![b'\t'],
                    Some(b'r') => vec![b'\r'],
                    Some(b'0') => vec![0],
                    Some(b'x') => unhex(&String::from_utf8_lossy(&body[1..])),
                    Some(o) => vec![*o],
                    None => vec![],
                };
                add(format!("s {}", hex(&v)));
                i = j + 1;
                last = None;
                continue;
            }
            let mut j = i + 1;
            while j < b.len() && j < i + 6 && b[j] != b'\'' {
                j += 1;
            }
            if at(j) == b'\'' && (j == i + 2 || b[i + 1] >= 0x80) {
                add(format!("s {}", hex(&b[i + 1..j])));
                i = j + 1;
            } else {
                i += 1;
            }
            last = None;
            continue;
        }
        if c.is_ascii_digit() {
            let s = i;
            while ident(at(i)) {
                i += 1;
            }
            let t: String = String::from_utf8_lossy(&b[s..i]).replace('_', "");
            let (radix, body) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0o") => (8, &t[2..]),
                Some("0b") => (2, &t[2..]),
                _ => (10, &t[..]),
            };
            let end = body
                .char_indices()
                .find(|(_, ch)| !ch.is_digit(radix))
                .map_or(body.len(), |(k, _)| k);
            if let Ok(v) = u64::from_str_radix(&body[..end], radix) {
                let v2 = match (last, op) {
                    (Some(l), b'*') => l.checked_mul(v),
                    (Some(l), b'<') if v < 64 => l.checked_shl(v as u32),
                    _ => None,
                };
                add(format!("i {}", v));
                if let Some(v2) = v2 {
                    add(format!("i {}", v2));
                }
                last = v2.or(Some(v));
            }
            op = 0;
            continue;
        }
        if ident(c) {
            let s = i;
            while ident(at(i)) {
                i += 1;
            }
            let w = String::from_utf8_lossy(&b[s..i]).into_owned();
            if words[1] == "ErrorKind" {
                add(format!("k {}", w));
            }
            let small = ["u8", "i8", "u16", "i16", "u32", "i32", "i64"].contains(&&w[..]);
            if small && words[1] == "as" || w == "MAX" || w == "MIN" {
                let t = if w == "MAX" || w == "MIN" { words[1].clone() } else { w.clone() };
                add(format!("t {}", t));
            }
            words = [std::mem::take(&mut words[1]), w];
            last = None;
            continue;
        }
        if c == b'*' || c == b'<' {
            op = c;
        } else if !c.is_ascii_whitespace() {
            last = None;
            op = 0;
        }
        i += 1;
    }
}
