//! Case bookkeeping for the executable contracts.
use std::cell::Cell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static CASES: AtomicU64 = AtomicU64::new(0);

pub struct Fail {
    pub what: String,
}
pub type Res = Result<(), Fail>;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// inclusive
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * ((self.next() >> 11) as f64 / (1u64 << 53) as f64)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub deep: bool,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub rules: Vec<String>,
    pub start: Instant,
    pub budget: Duration,
    pub overrun: Cell<bool>,
}

impl Ctx {
    pub fn new(seed: u64, deep: bool, budget: Duration) -> Self {
        Ctx {
            rng: Rng::new(seed),
            deep,
            evals: 0,
            seen: HashSet::new(),
            samples: vec![],
            rules: vec![],
            start: Instant::now(),
            budget,
            overrun: Cell::new(false),
        }
    }
    pub fn rule(&mut self, r: &str) {
        if !self.rules.iter().any(|x| x == r) {
            self.rules.push(r.to_string());
        }
    }
    /// register a case (its description is what a violation reports)
    pub fn case(&mut self, desc: String, nontrivial: bool) {
        self.evals += 1;
        CASES.store(self.evals, Ordering::Relaxed);
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            self.seen.insert(h.finish());
        }
        if nontrivial && (self.samples.len() < 3 || (self.evals.is_power_of_two() && self.samples.len() < 12)) {
            let mut d = desc.clone();
            d.truncate(600);
            self.samples.push(d);
        }
        *CURRENT.lock().unwrap() = desc;
    }
    pub fn time_left(&self) -> bool {
        let left = self.start.elapsed() < self.budget;
        if !left {
            self.overrun.set(true);
        }
        left
    }
    /// number of random rounds
    pub fn rounds(&self, quick: usize) -> usize {
        quick * if self.deep { 800 } else { 30 }
    }
}

pub fn fail<T>(what: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { what: what.into() })
}
pub fn ensure(c: bool, what: impl FnOnce() -> String) -> Res {
    if c {
        Ok(())
    } else {
        Err(Fail { what: what() })
    }
}
/// run code under test; a panic is a failure of the current case
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        Fail { what: format!("panicked: {m}") }
    })
}

/// all sequences of exactly `len` elements of 0..base, until `f` fails
pub fn sequences(base: usize, len: usize, f: &mut dyn FnMut(&[usize]) -> Res) -> Res {
    let mut v = vec![0usize; len];
    loop {
        f(&v)?;
        let mut i = 0;
        loop {
            if i == len {
                return Ok(());
            }
            v[i] += 1;
            if v[i] < base {
                break;
            }
            v[i] = 0;
            i += 1;
        }
    }
}
