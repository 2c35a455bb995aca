//! Per-thread statistics of the simulated runs: fault kinds that really fired, probes of rare states,
//! simulated time and the hash of the observable history.
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    pub sim_ns: u64,
    pub hist: u64,
    pub nontrivial: bool,
}
thread_local! {
    pub static S: RefCell<Stats> = RefCell::new(Stats::default());
}
pub fn add(k: &'static str, v: u64) {
    if v > 0 {
        S.with(|s| *s.borrow_mut().n.entry(k).or_insert(0) += v);
    }
}
pub fn hit(k: &'static str) {
    add(k, 1)
}
pub fn hist(h: u64) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.hist = crate::rng::mix(s.hist ^ h);
    });
}
pub fn hist_bytes(b: &[u8]) {
    hist(crate::rng::hash_bytes(7, b));
}
pub fn nontrivial() {
    S.with(|s| s.borrow_mut().nontrivial = true);
}

/// A fault of a named variety.
pub fn kind(prefix: &'static str, name: &'static str) {
    thread_local! {
        static NAMES: RefCell<BTreeMap<(&'static str, &'static str), &'static str>> = RefCell::new(BTreeMap::new());
    }
    let k = NAMES.with(|n| *n.borrow_mut().entry((prefix, name)).or_insert_with(|| Box::leak(format!("{}{}", prefix, name).into_boxed_str())));
    hit(k);
}
