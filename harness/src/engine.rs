//! Generated-input search: every case is a finite sequence of bounded choices, drawn at random and
//! recorded, so that any failure can be replayed and shrunk by editing the sequence.

use crate::alloc::tracking;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !($c) { return Err($crate::alloc::tracking(false, || format!($($t)*))); }
    };
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    log: Option<std::fs::File>,
    pub describe: bool,
    /// notes also go to stderr as they are made
    pub aloud: bool,
    pub notes: Vec<String>,
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
    pub thorough: bool,
    /// number of checked sub-evaluations in this case
    pub evals: u64,
}

impl Src {
    pub fn random(seed: u64, case: u64) -> Self {
        let mut s = Self::blank();
        s.state = mix(mix(seed) ^ mix(case).rotate_left(17));
        s
    }

    pub fn replaying(choices: Vec<u64>) -> Self {
        let mut s = Self::blank();
        s.replay = Some(choices);
        s
    }

    fn blank() -> Self {
        Src { state: 0, replay: None, rec: Vec::with_capacity(256), log: None, describe: false, aloud: false, notes: vec![],
              nontrivial: false, tags: Vec::with_capacity(64), thorough: false, evals: 1 }
    }

    pub fn set_log(&mut self, f: std::fs::File) {
        self.log = Some(f);
    }

    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    /// A value in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(c) => c.get(self.rec.len()).copied().unwrap_or(0) % n,
            None => self.next() % n,
        };
        tracking(false, || {
            self.rec.push(v);
            if let Some(f) = &mut self.log {
                let _ = f.write_all(&v.to_le_bytes());
            }
        });
        v
    }

    /// Any 64-bit value.
    pub fn next_word(&mut self) -> u64 {
        self.below(u64::MAX)
    }

    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto(hi - lo + 1)
    }

    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    /// True with probability num/den; false is the simpler outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.upto(xs.len())]
    }

    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as u64) as u32;
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            tracking(false, || { let t = f(); if self.aloud { eprintln!("{t}"); } self.notes.push(t) });
        }
    }

    pub fn tag(&mut self, t: &'static str) {
        tracking(false, || self.tags.push(t));
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

/// Runs `f`, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        tracking(false, || {
            if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            }
        })
    })
}
