//! What a case of a property gets, and what it reports.

use crate::util::{Fnv, Rng};
use std::collections::{BTreeMap, HashSet};

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub replaying: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub dump: Vec<String>,
}

pub type R = Result<(), String>;

impl Ctx {
    pub fn new(thorough: bool) -> Ctx {
        Ctx {
            rng: Rng::new(0),
            idx: 0,
            thorough,
            replaying: false,
            counters: BTreeMap::new(),
            maxes: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            dump: Vec::new(),
        }
    }
    /// count something that a monitor observed
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_insert(0) += n;
    }
    pub fn max(&mut self, what: &'static str, n: u64) {
        let m = self.maxes.entry(what).or_insert(0);
        if n > *m {
            *m = n;
        }
    }
    /// declare the case (or a part of it) as non-trivial, with its identity
    pub fn distinct(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn distinct_of(&mut self, parts: &[&[u8]]) {
        let mut f = Fnv::new();
        for p in parts {
            f.add(p);
        }
        self.distinct.insert(f.0);
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        // the first case of a few workers, and a later one
        if self.samples.len() < 2 && (self.samples.is_empty() || self.idx > 64) {
            let s = f();
            self.samples.push(s);
        }
    }
    /// text written in the replay file if this case fails
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.replaying {
            let s = f();
            self.dump.push(s);
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

/// A defect of the harness itself: never reported as a violation.
#[macro_export]
macro_rules! hbug {
    ($($a:tt)*) => { panic!("HARNESS: {}", format!($($a)*)) };
}
