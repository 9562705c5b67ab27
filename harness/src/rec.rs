//! Bookkeeping: cases, violations, counters, watchdog.
use rand::{rngs::StdRng, SeedableRng};
use std::collections::{BTreeMap, HashSet};

pub struct Rec {
    pub prop: String,
    pub case: u64,
    pub rng: StdRng,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<(String, String)>,
    pub trace: Vec<String>,
}

pub fn case_rng(prop: &str, case: u64) -> StdRng {
    let mut seed = [0u8; 32];
    let h = blake3::hash(format!("{prop}/{case}").as_bytes());
    seed.copy_from_slice(h.as_bytes());
    StdRng::from_seed(seed)
}

impl Rec {
    pub fn new(prop: &str, case: u64) -> Self {
        Rec {
            prop: prop.into(),
            case,
            rng: case_rng(prop, case),
            evaluations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            violations: vec![],
            trace: vec![],
        }
    }
    /// one evaluation of a contract; `shape` identifies non-trivial distinct cases
    pub fn eval(&mut self, shape: &impl std::hash::Hash) {
        use std::hash::Hasher;
        self.evaluations += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        shape.hash(&mut h);
        self.distinct.insert(h.finish());
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_default() += 1;
    }
    pub fn t(&mut self, s: impl Into<String>) {
        self.trace.push(s.into());
    }
    pub fn fail(&mut self, key: &str, what: impl Into<String>) {
        let w = what.into();
        if !self.violations.iter().any(|v| v.0 == key) {
            self.violations.push((key.to_string(), w));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, what: impl FnOnce() -> String) -> bool {
        self.evaluations += 1;
        if !ok {
            self.fail(key, what());
        }
        ok
    }
}
