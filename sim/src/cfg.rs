//! Per-run configuration: every key is drawn from its own stream, so overriding one key shifts nothing else.
use crate::rng::R;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub struct Cfg {
    pub seed: u64,
    pub over: BTreeMap<String, i64>,
    pub used: RefCell<BTreeMap<String, i64>>,
}
impl Cfg {
    pub fn new(seed: u64, over: BTreeMap<String, i64>) -> Cfg {
        Cfg { seed, over, used: RefCell::new(BTreeMap::new()) }
    }
    pub fn get(&self, key: &str, f: impl FnOnce(&mut R) -> i64) -> i64 {
        let v = match self.over.get(key) {
            Some(v) => *v,
            None => f(&mut R::new(self.seed, &format!("cfg/{key}"))),
        };
        self.used.borrow_mut().insert(key.to_string(), v);
        v
    }
    pub fn range(&self, key: &str, lo: i64, hi: i64) -> i64 {
        self.get(key, |r| r.range(lo, hi))
    }
    /// true with chance pct/100
    pub fn flag(&self, key: &str, pct: u64) -> bool {
        self.get(key, |r| (r.below(100) < pct) as i64) != 0
    }
    pub fn pick(&self, key: &str, v: &[i64]) -> i64 {
        self.get(key, |r| *r.pick(v))
    }
    pub fn rng(&self, stream: &str) -> R {
        R::new(self.seed, &format!("run/{stream}"))
    }
    /// Fixes a key for this run (scenario requirement); visible in the key list.
    pub fn fix(&mut self, key: &str, v: i64) {
        if !self.over.contains_key(key) {
            self.over.insert(key.to_string(), v);
        }
    }
}
