//! Case runner: every case is a function of (property, seed, tier, case index), so a failing case is
//! replayed by its index.
use crate::rng::Rng;
use std::{
    collections::HashSet,
    fs,
    hash::{DefaultHasher, Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    time::{Duration, Instant},
};

pub struct Failure {
    pub index: u64,
    /// Stable identification of what fails (matched against the known findings).
    pub key: String,
    pub what: String,
}
pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<u64>,
    cur: Option<PathBuf>,
    start: Instant,
    budget: Duration,
    next: u64,
    pub evaluations: u64,
    seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
}
/// Ok(h): the case was run; `h` identifies it (0: trivial, not counted).
pub type R = Result<u64, String>;
thread_local! {
    static WANT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static NOTE: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// Describe the case just run, when a sample of the cases is wanted.
pub fn note(f: impl FnOnce() -> String) {
    if WANT.get() {
        NOTE.with(|n| *n.borrow_mut() = Some(f()));
    }
}
pub fn h(x: impl Hash) -> u64 {
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    d.finish().max(1)
}
impl Cx {
    pub fn new(seed: u64, thorough: bool, only: Option<u64>, cur: Option<PathBuf>, budget: Duration) -> Cx {
        Cx {
            seed, thorough, only, cur, budget,
            start: Instant::now(), next: 0, evaluations: 0, seen: HashSet::new(), samples: vec![], failures: vec![],
        }
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn out_of_time(&self) -> bool {
        self.only.is_none() && self.start.elapsed() > self.budget
    }
    pub fn stop(&self) -> bool {
        self.failures.len() >= 5 || self.out_of_time() || self.only.is_some_and(|o| self.next > o)
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) { n -= 1 }
                s.truncate(n);
            }
            self.samples.push(s);
        }
    }
    /// Run one case. `key` names the kind of case.
    pub fn case(&mut self, key: &str, f: impl FnOnce(&mut Rng) -> R) {
        let index = self.next;
        self.next += 1;
        if self.failures.len() >= 5 || self.only.is_some_and(|o| o != index) || self.out_of_time() {
            return;
        }
        if let Some(p) = &self.cur {
            let _ = fs::write(p, format!("{index} {key}"));
        }
        let mut rng = Rng::new(self.seed.wrapping_mul(0x1_0000_0001).wrapping_add(index.wrapping_mul(0x9E37_79B9)));
        self.evaluations += 1;
        WANT.set(self.samples.len() < 3 && self.evaluations % 23 == 11);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng)));
        let what = match r {
            Ok(Ok(x)) => {
                if x != 0 {
                    self.seen.insert(x);
                }
                if let (true, Some(n)) = (WANT.get(), NOTE.with(|n| n.borrow_mut().take())) {
                    self.sample(|| n);
                }
                return;
            }
            Ok(Err(e)) => e,
            Err(p) => format!("panic: {}", p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied()).unwrap_or("?")),
        };
        self.failures.push(Failure { index, key: key.to_string(), what });
    }
    pub fn distinct(&self) -> u64 {
        self.seen.len() as u64
    }
}
