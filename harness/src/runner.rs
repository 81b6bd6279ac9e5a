//! Runs the legs of a property: generation and shrinking by proptest, counting, replay files.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

/// What one case exercised.
#[derive(Default, Clone)]
pub struct Info {
    /// non-trivial by the leg's stated rule
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Info {
    pub fn nt(nontrivial: bool) -> Info {
        Info { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, cond: bool, l: &'static str) -> Info {
        if cond {
            self.labels.push(l);
        }
        self
    }
}
pub type Outcome = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

pub trait Input: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + 'static {}
impl<T: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + 'static> Input for T {}

pub struct Failure {
    pub input: Value,
    pub message: String,
}
#[derive(Default)]
pub struct LegResult {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub exhaustive: bool,
}

pub trait Leg: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> u64;
    fn run(&self, cases: u64, seed: u64, threads: usize) -> LegResult;
    fn replay(&self, input: &Value) -> Result<Outcome, String>;
    /// Generated inputs in serialised form, for the guided search to start from (none: the leg is not searched that way).
    #[cfg_attr(not(feature = "guided"), allow(dead_code))]
    fn generate(&self, n: u64, seed: u64) -> Vec<Value>;
}

/// A leg whose inputs are generated by a proptest strategy.
pub struct Gen<T: Input> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strat: fn() -> BoxedStrategy<T>,
    pub check: fn(&T) -> Outcome,
}
/// A leg that walks through an enumerated, deterministic set of structured inputs.
pub struct Sweep<T: Input> {
    pub name: &'static str,
    pub rule: &'static str,
    pub total: fn(thorough: bool) -> u64,
    pub input: fn(u64) -> T,
    pub check: fn(&T) -> Outcome,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i).replace('\n', " ");
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}
// ---------------------------------------------------------------- watchdog: a case that does not return
type Current = Mutex<Option<(std::time::Instant, Box<dyn Fn() -> Value + Send>)>>;
static RUNNING: Mutex<Vec<std::sync::Arc<Current>>> = Mutex::new(vec![]);
thread_local! {
    static MINE: std::sync::Arc<Current> = {
        let c = std::sync::Arc::new(Mutex::new(None));
        RUNNING.lock().unwrap().push(std::sync::Arc::clone(&c));
        c
    };
}
/// A case normally takes milliseconds; one that has not returned after this long never will.
pub const HANG_SECS: u64 = 90;
/// Calls `report` (which ends the process) with the input of a case that does not return. It counts how often it has seen
/// the case instead of reading the clock, so that a process that was stopped for a while raises no alarm.
pub fn watch(report: impl Fn(Value) + Send + 'static) {
    const TICK: u64 = 3;
    std::thread::spawn(move || {
        let mut seen: Vec<Option<(std::time::Instant, u64)>> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(TICK));
            let running = RUNNING.lock().unwrap();
            seen.resize(running.len(), None);
            for (c, s) in running.iter().zip(seen.iter_mut()) {
                match c.lock().unwrap().as_ref() {
                    None => *s = None,
                    Some((t, input)) => {
                        let n = s.filter(|x| x.0 == *t).map_or(0, |x| x.1) + 1;
                        *s = Some((*t, n));
                        if n * TICK > HANG_SECS {
                            report(input());
                        }
                    }
                }
            }
        }
    });
}

/// Runs the check; a panic in the code under test is a violation, with its message.
pub fn guarded<T: Input>(check: fn(&T) -> Outcome, x: &T) -> Outcome {
    MINE.with(|m| {
        let y = x.clone();
        *m.lock().unwrap() = Some((std::time::Instant::now(), Box::new(move || serde_json::to_value(&y).unwrap_or(json!(null)))));
    });
    let r = guarded_inner(check, x);
    MINE.with(|m| *m.lock().unwrap() = None);
    r
}
fn guarded_inner<T>(check: fn(&T) -> Outcome, x: &T) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| check(x))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|p| p.borrow().clone()))),
    }
}

fn hash64<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn derive_seed(parts: &[&dyn Debug]) -> [u8; 32] {
    // four independent 64-bit hashes of the description (DefaultHasher has fixed keys)
    let mut out = [0u8; 32];
    let text = format!("{:?}", parts);
    for i in 0..4u64 {
        out[8 * i as usize..8 * i as usize + 8].copy_from_slice(&hash64(&(i, &text)).to_le_bytes());
    }
    out
}

#[derive(Default)]
struct Acc {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}
impl Acc {
    fn note<T: Input>(&mut self, x: &T, info: Info, want_samples: usize) {
        self.evals += 1;
        if info.nontrivial {
            self.nontrivial += 1;
            let fresh = self.distinct.insert(hash64(x));
            if fresh && self.samples.len() < want_samples {
                if let Ok(v) = serde_json::to_value(x) {
                    self.samples.push(v);
                }
            }
        }
        for l in info.labels {
            *self.labels.entry(l).or_default() += 1;
        }
    }
}
fn merge(accs: Vec<Acc>, failure: Option<Failure>) -> LegResult {
    let mut r = LegResult::default();
    let mut distinct = HashSet::new();
    for a in accs {
        r.evaluations += a.evals;
        r.nontrivial += a.nontrivial;
        distinct.extend(a.distinct);
        for (k, v) in a.labels {
            *r.labels.entry(k).or_default() += v;
        }
        r.samples.extend(a.samples);
    }
    r.samples.truncate(3);
    r.distinct_nontrivial = distinct.len() as u64;
    r.failure = failure;
    r
}

const SHARDS: u64 = 32;

impl<T: Input> Leg for Gen<T> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }
    fn run(&self, cases: u64, seed: u64, threads: usize) -> LegResult {
        // Fixed work: SHARDS streams whose content depends only on (seed, leg, shard), run by `threads` workers.
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        // the lowest failing shard wins, so that the report does not depend on thread timing
        let fail: Mutex<Option<(u64, Failure)>> = Mutex::new(None);
        let accs: Mutex<Vec<(u64, Acc)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| loop {
                    let shard = next.fetch_add(1, Ordering::SeqCst);
                    if shard >= SHARDS || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let n = cases / SHARDS + u64::from(shard < cases % SHARDS);
                    let mut acc = Acc::default();
                    if n > 0 {
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &derive_seed(&[&seed, &self.name, &shard]));
                        let cfg = Config { cases: u32::MAX, failure_persistence: None, max_shrink_iters: 20000, ..Config::default() };
                        let mut runner = TestRunner::new_with_rng(cfg, rng);
                        let strat = (self.strat)();
                        for _ in 0..n {
                            let mut tree = strat.new_tree(&mut runner).expect("generator");
                            let x = tree.current();
                            match guarded(self.check, &x) {
                                Ok(info) => acc.note(&x, info, if shard < 3 { 1 } else { 0 }),
                                Err(first) => {
                                    acc.evals += 1;
                                    stop.store(true, Ordering::SeqCst);
                                    let (x, message) = shrink(&mut *tree, self.check, x, first);
                                    let f = Failure { input: serde_json::to_value(&x).unwrap_or(json!(null)), message };
                                    let mut g = fail.lock().unwrap();
                                    if g.as_ref().map_or(true, |(s, _)| shard < *s) {
                                        *g = Some((shard, f));
                                    }
                                    break;
                                }
                            }
                        }
                    }
                    accs.lock().unwrap().push((shard, acc));
                });
            }
        });
        let mut accs = accs.into_inner().unwrap();
        accs.sort_by_key(|(s, _)| *s);
        merge(accs.into_iter().map(|(_, a)| a).collect(), fail.into_inner().unwrap().map(|(_, f)| f))
    }
    fn replay(&self, input: &Value) -> Result<Outcome, String> {
        let x: T = serde_json::from_value(input.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(self.check, &x))
    }
    fn generate(&self, n: u64, seed: u64) -> Vec<Value> {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &derive_seed(&[&seed, &self.name, &"generate"]));
        let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
        let strat = (self.strat)();
        (0..n).filter_map(|_| serde_json::to_value(strat.new_tree(&mut runner).ok()?.current()).ok()).collect()
    }
}

/// proptest's simplify/complicate loop, with a bound on the number of executions.
fn shrink<T: Input>(tree: &mut dyn ValueTree<Value = T>, check: fn(&T) -> Outcome, x: T, msg: String) -> (T, String) {
    let (mut best, mut best_msg) = (x, msg);
    let mut iters = 0;
    let t0 = std::time::Instant::now();
    if tree.simplify() {
        loop {
            iters += 1;
            if iters > 3000 || t0.elapsed().as_secs() >= 15 {
                break;
            }
            let cur = tree.current();
            match guarded(check, &cur) {
                Err(m) => {
                    best = cur;
                    best_msg = m;
                    if !tree.simplify() {
                        break;
                    }
                }
                Ok(_) => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    (best, best_msg)
}

impl<T: Input> Leg for Sweep<T> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn cases(&self, thorough: bool) -> u64 {
        (self.total)(thorough)
    }
    fn run(&self, cases: u64, _seed: u64, threads: usize) -> LegResult {
        let next = AtomicUsize::new(0);
        let fail: Mutex<Option<(u64, Failure)>> = Mutex::new(None);
        let stop = AtomicBool::new(false);
        let accs: Mutex<Vec<Acc>> = Mutex::new(vec![]);
        const CHUNK: u64 = 64;
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    let mut acc = Acc::default();
                    'o: loop {
                        let c = next.fetch_add(1, Ordering::SeqCst) as u64;
                        if c * CHUNK >= cases || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        for i in c * CHUNK..((c + 1) * CHUNK).min(cases) {
                            let x = (self.input)(i);
                            match guarded(self.check, &x) {
                                Ok(info) => acc.note(&x, info, if i > cases / 2 { 1 } else { 0 }),
                                Err(message) => {
                                    acc.evals += 1;
                                    stop.store(true, Ordering::SeqCst);
                                    let f = Failure { input: serde_json::to_value(&x).unwrap_or(json!(null)), message };
                                    let mut g = fail.lock().unwrap();
                                    if g.as_ref().map_or(true, |(s, _)| i < *s) {
                                        *g = Some((i, f));
                                    }
                                    break 'o;
                                }
                            }
                        }
                    }
                    accs.lock().unwrap().push(acc);
                });
            }
        });
        let f = fail.into_inner().unwrap().map(|(_, f)| f);
        let mut r = merge(accs.into_inner().unwrap(), f);
        r.exhaustive = true;
        r
    }
    fn replay(&self, input: &Value) -> Result<Outcome, String> {
        let x: T = serde_json::from_value(input.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(self.check, &x))
    }
    fn generate(&self, _n: u64, _seed: u64) -> Vec<Value> {
        vec![]
    }
}
