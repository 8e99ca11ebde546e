//! Execution context of a case: statistics, samples and verdict helpers.

use std::collections::BTreeMap;

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub stats: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    /// cases distinct by construction (enumerations)
    pub enumerated: u64,
    pub evals: u64,
    pub samples: Vec<String>,
    pub verbose: bool,
    pub tier: Tier,
    pub seed: u64,
    sample_gate: u64,
    sample_left: u32,
    family: &'static str,
}

impl Ctx {
    pub fn new(tier: Tier, seed: u64, verbose: bool) -> Ctx {
        Ctx {
            stats: BTreeMap::new(),
            hashes: vec![],
            enumerated: 0,
            evals: 0,
            samples: vec![],
            verbose,
            tier,
            seed,
            sample_gate: 1,
            sample_left: 3,
            family: "",
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.stats.get_mut(k) {
            *x += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let key = format!("max_{k}");
        let e = self.stats.entry(key).or_insert(0);
        *e = (*e).max(n);
    }
    /// one evaluation of the oracle on a non-trivial case with the given identity
    pub fn case(&mut self, h: u64) {
        self.evals += 1;
        self.hashes.push(h);
    }
    /// start of a family: allow a few samples of it
    pub fn family_start(&mut self, name: &'static str) {
        self.family = name;
        self.sample_gate = self.evals + 2;
        self.sample_left = 3;
    }
    /// keep a few samples, exponentially spaced
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("  {}", f());
            return;
        }
        if self.evals >= self.sample_gate && self.sample_left > 0 {
            self.sample_left -= 1;
            let s = format!("[{}] {}", self.family, f());
            self.samples.push(s);
            self.sample_gate = (self.evals + 1) * 3 / 2 + 20;
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => { if !($c) { return Err(format!($($fmt)*)); } }
}

use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if verbose {
            eprintln!("  [panic at {loc}: {msg}]");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Caught<T> {
    Ok(T),
    /// (location, message); location is in the code under test
    Panic(String, String),
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))
}

/// harness sources are compiled with paths relative to the harness crate
pub fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/")
}

/// Run a call of the crate that is allowed to panic. Panics of the harness propagate.
pub fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Caught::Ok(x),
        Err(e) => {
            let (loc, msg) = last_panic();
            if is_harness(&loc) {
                LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
                std::panic::resume_unwind(e)
            }
            Caught::Panic(loc, msg)
        }
    }
}
