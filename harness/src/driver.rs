//! Runs sub-checks over generated or enumerated cases, counts what was covered, shrinks failures.

use std::{
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::Strategy,
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::model::mix;

pub const WORKERS: usize = 8;

/// What a case turned out to be: `Ok(Some(label))` is a non-trivial case of that class, `Ok(None)` a
/// trivial one, `Err` a violation.
pub type Outcome = Result<Option<&'static str>, String>;

#[derive(Debug, Clone)]
pub struct Failure {
    pub sub: String,
    pub case: Value,
    pub message: String,
}

#[derive(Default)]
struct SubStats {
    evaluations: u64,
    nontrivial: u64,
    exhaustive: bool,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    wall_ms: u64,
    note: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    /// "release" or "checked"
    pub profile: String,
    pub only: Option<String>,
    /// Multiplies random case counts.
    pub scale: f64,
    stats: Mutex<BTreeMap<String, SubStats>>,
    failures: Mutex<Vec<Failure>>,
    findings: Mutex<BTreeMap<String, String>>,
    start: Instant,
    /// Where to write results, also when a case never ends.
    out: Option<(PathBuf, PathBuf)>,
    /// Where each worker writes the case it is at, when the run is repeated because it ended the process.
    trace: Option<PathBuf>,
}

/// How many times the counts written in the checks a property gets, so that each takes about as long.
fn more(id: &str) -> f64 {
    match id {
        "C01" | "C04" | "C17" => 6.0,
        "C02" | "C06" | "C08" | "C14" | "C16" => 3.0,
        "C03" | "C05" | "C10" | "C11" | "C13" => 12.0,
        "C07" | "C12" | "C19" => 5.0,
        "C09" => 10.0,
        "C18" => 4.0,
        _ => 1.0,
    }
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, profile: &str) -> Self {
        Self {
            id: id.into(),
            thorough,
            seed,
            profile: profile.into(),
            only: std::env::var("PC_ONLY").ok(),
            scale: more(id) * std::env::var("PC_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            stats: Mutex::default(),
            failures: Mutex::default(),
            findings: Mutex::default(),
            start: Instant::now(),
            out: None,
            trace: std::env::var_os("PC_TRACE").map(PathBuf::from),
        }
    }

    /// Leaves a note of what a worker is at, to be found if the process does not survive it.
    fn at(&self, worker: u64, sub: &str, case: impl FnOnce() -> Value) {
        if let Some(dir) = &self.trace {
            let doc = json!({"property": self.id, "sub": sub, "profile": self.profile, "seed": self.seed, "case": case()});
            std::fs::write(dir.join(format!("{worker}.json")), doc.to_string()).expect("trace");
        }
    }

    pub fn writes_to(mut self, part: PathBuf, replays: PathBuf) -> Self {
        self.out = Some((part, replays));
        self
    }

    /// How long one generated case may take before it counts as one that gets no answer. The slowest take
    /// a few seconds (the deliberately long ones of the thorough tier: minutes).
    fn patience(&self) -> Duration { Duration::from_secs(if self.thorough { 3600 } else { 150 }) }

    pub fn checked(&self) -> bool { self.profile == "checked" }

    /// A case count: `quick` for the release build in the quick tier, fewer in the checked build, more
    /// in the thorough tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        let n = if self.checked() { n / 4 } else { n };
        ((n as f64 * self.scale) as u64).max(1)
    }

    fn skip(&self, sub: &str) -> bool {
        self.only.as_deref().map_or(false, |o| o != sub) || !self.failures.lock().unwrap().is_empty()
    }

    pub fn failed(&self) -> bool { !self.failures.lock().unwrap().is_empty() }

    pub fn fail(&self, f: Failure) { self.failures.lock().unwrap().push(f); }

    /// Records that a violation with a known signature was seen (first example kept).
    pub fn finding(&self, signature: &str, example: String) {
        self.findings.lock().unwrap().entry(signature.into()).or_insert(example);
    }

    fn record(&self, sub: &str, f: impl FnOnce(&mut SubStats)) {
        f(self.stats.lock().unwrap().entry(sub.into()).or_default())
    }

    pub fn note(&self, sub: &str, note: String) { self.record(sub, |s| s.note = note) }

    /// Random cases from a proptest strategy, spread over a fixed number of workers with fixed seeds.
    pub fn random<T, S, M, F>(&self, sub: &str, cases: u64, strategy: M, check: F)
    where
        T: Clone + Debug + Serialize + Send,
        S: Strategy<Value = T>,
        M: Fn() -> S + Sync,
        F: Fn(&T) -> Outcome + Sync,
    {
        self.random_w(sub, cases, WORKERS, strategy, check, |c, _| c)
    }

    pub fn random_w<T, S, M, F, Z>(&self, sub: &str, cases: u64, workers: usize, strategy: M, check: F, shrink: Z)
    where
        T: Clone + Debug + Serialize + Send,
        S: Strategy<Value = T>,
        M: Fn() -> S + Sync,
        F: Fn(&T) -> Outcome + Sync,
        Z: Fn(T, &dyn Fn(&T) -> bool) -> T + Sync,
    {
        if self.skip(sub) {
            return;
        }
        let t0 = Instant::now();
        struct W {
            evals: u64,
            classes: BTreeMap<String, u64>,
            distinct: HashSet<u64>,
            samples: Vec<Value>,
            failure: Option<(Value, String)>,
        }
        let stop = AtomicBool::new(false);
        let per = (cases / workers as u64).max(1);
        // The case each worker is at, and since when, for the watch on cases that never end.
        let at: Vec<Mutex<Option<(Instant, T)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
        let over = AtomicBool::new(false);
        let results: Vec<W> = std::thread::scope(|sc| {
            let (at, over) = (&at, &over);
            let watch = sc.spawn(move || {
                while !over.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(500));
                    for a in at {
                        if let Some((t, c)) = &*a.lock().unwrap() {
                            if t.elapsed() > self.patience() {
                                let case = serde_json::to_value(c).unwrap();
                                self.fail(Failure { sub: sub.into(), case, message: format!("no answer in {} s", self.patience().as_secs()) });
                                let (part, replays) = self.out.clone().expect("a place for results");
                                std::process::exit(self.finish(&part, &replays));
                            }
                        }
                    }
                }
            });
            let handles: Vec<_> = (0..workers)
                .map(|w| {
                    let (strategy, check, shrink, stop, at) = (&strategy, &check, &shrink, &stop, &at[w]);
                    let seed = seed_bytes(self.seed, &self.id, sub, &self.profile, w as u64);
                    sc.spawn(move || {
                        let st = std::cell::RefCell::new(W {
                            evals: 0,
                            classes: BTreeMap::new(),
                            distinct: HashSet::new(),
                            samples: vec![],
                            failure: None,
                        });
                        let failed = std::cell::Cell::new(false);
                        let config = Config {
                            cases: per.min(u32::MAX as u64) as u32,
                            failure_persistence: None,
                            max_shrink_iters: 4000,
                            max_shrink_time: 60_000,
                            ..Config::default()
                        };
                        let mut runner =
                            TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                        let guarded = |c: &T| {
                            *at.lock().unwrap() = Some((Instant::now(), c.clone()));
                            self.at(w as u64, sub, || serde_json::to_value(c).unwrap());
                            let o = guard(|| check(c));
                            *at.lock().unwrap() = None;
                            o
                        };
                        let res = runner.run(&strategy(), |c| {
                            if stop.load(Ordering::Relaxed) && !failed.get() {
                                return Ok(());
                            }
                            let o = guarded(&c);
                            if !failed.get() {
                                let mut s = st.borrow_mut();
                                s.evals += 1;
                                if let Ok(tag) = &o {
                                    let label = tag.unwrap_or("trivial");
                                    match s.classes.get_mut(label) {
                                        Some(n) => *n += 1,
                                        None => {
                                            s.classes.insert(label.to_string(), 1);
                                        }
                                    }
                                    if tag.is_some() {
                                        let mut h = std::collections::hash_map::DefaultHasher::new();
                                        format!("{c:?}").hash(&mut h);
                                        if s.distinct.len() < 4_000_000 {
                                            s.distinct.insert(h.finish());
                                        }
                                        if s.samples.len() < 2 && s.evals % 7 == 3 {
                                            let v = serde_json::to_value(&c).unwrap();
                                            s.samples.push(v);
                                        }
                                    }
                                }
                            }
                            o.map(|_| ()).map_err(|m| {
                                failed.set(true);
                                stop.store(true, Ordering::Relaxed);
                                TestCaseError::fail(m)
                            })
                        });
                        let mut st = st.into_inner();
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(_, c)) => {
                                let c = shrink(c, &|x: &T| guarded(x).is_err());
                                let m = match guarded(&c) {
                                    Err(m) => m,
                                    Ok(_) => "failed during the run, but not when repeated alone: the outcome \
                                              depends on earlier calls"
                                        .to_string(),
                                };
                                st.failure = Some((serde_json::to_value(&c).unwrap(), m));
                            }
                            Err(TestError::Abort(r)) => panic!("generator of {sub} gave up: {r}"),
                        }
                        st
                    })
                })
                .collect();
            let results = handles.into_iter().map(|h| h.join()).collect::<Vec<_>>();
            over.store(true, Ordering::Relaxed);
            watch.thread().unpark();
            results.into_iter().map(|r| r.expect("worker")).collect()
        });
        let mut distinct: HashSet<u64> = HashSet::new();
        self.record(sub, |s| {
            for w in &results {
                s.evaluations += w.evals;
                distinct.extend(&w.distinct);
                for (k, v) in &w.classes {
                    *s.classes.entry(k.clone()).or_default() += v;
                }
                if s.samples.len() < 4 {
                    s.samples.extend(w.samples.iter().take(1).cloned());
                }
            }
            s.nontrivial += distinct.len() as u64;
            s.wall_ms += t0.elapsed().as_millis() as u64;
        });
        if let Some((case, message)) = results.into_iter().find_map(|w| w.failure) {
            self.fail(Failure { sub: sub.into(), case, message });
        }
    }

    /// Enumerates `chunks` chunks in parallel; the failing case of the lowest chunk is reported after
    /// `shrink`. Every case is distinct by construction.
    pub fn exhaustive<T, F>(&self, sub: &str, complete: bool, chunks: u64, f: F, check: impl Fn(&T) -> Outcome + Sync, shrink: impl Fn(T, &dyn Fn(&T) -> bool) -> T)
    where
        T: Clone + Debug + Serialize + Send,
        F: Fn(u64, &mut Acc<T>) + Sync,
    {
        if self.skip(sub) {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let accs: Vec<(Vec<(u64, T, String)>, Acc<T>)> = std::thread::scope(|sc| {
            let handles: Vec<_> = (0..WORKERS)
                .map(|w| {
                    let (next, stop, f) = (&next, &stop, &f);
                    sc.spawn(move || {
                        let mut total = Acc::new();
                        let mut fails = vec![];
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= chunks || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            total.failure = None;
                            self.at(w as u64, sub, || Value::Null);
                            let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut total)));
                            if let Some((c, m)) = total.failure.take() {
                                fails.push((i, c, m));
                                stop.store(true, Ordering::Relaxed);
                            } else if let Err(e) = r {
                                // A panic: the case being looked at is the failing one.
                                match total.current.clone() {
                                    Some(c) => fails.push((i, c, panic_text(&*e))),
                                    None => std::panic::resume_unwind(e),
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        (fails, total)
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut fails = vec![];
        self.record(sub, |s| {
            for (f, a) in accs {
                fails.extend(f);
                s.evaluations += a.evals;
                s.nontrivial += a.nontrivial;
                for (k, v) in a.classes {
                    *s.classes.entry(k.to_string()).or_default() += v;
                }
                if s.samples.len() < 3 {
                    s.samples.extend(a.samples.into_iter().take(1).map(|c| serde_json::to_value(&c).unwrap()));
                }
            }
            s.exhaustive = complete && fails.is_empty();
            s.wall_ms += t0.elapsed().as_millis() as u64;
        });
        fails.sort_by_key(|f| f.0);
        if let Some((_, case, message)) = fails.into_iter().next() {
            let guarded = |c: &T| guard(|| check(c));
            let case = shrink(case, &|c| guarded(c).is_err());
            let message = match guarded(&case) {
                Err(m) => m,
                Ok(_) => format!("{message} (not when repeated alone: the outcome depends on earlier calls)"),
            };
            self.fail(Failure { sub: sub.into(), case: serde_json::to_value(&case).unwrap(), message });
        }
    }

    /// Writes the part file and returns the exit status; the runner merges parts into evidence.
    pub fn finish(&self, part: &PathBuf, replay_dir: &PathBuf) -> i32 {
        let failures = std::mem::take(&mut *self.failures.lock().unwrap());
        let stats = std::mem::take(&mut *self.stats.lock().unwrap());
        let mut replay = Value::Null;
        if let Some(f) = failures.first() {
            std::fs::create_dir_all(replay_dir).expect("replay dir");
            let path = replay_dir.join(format!("{}-{}-{}.json", self.id, f.sub, self.profile));
            let doc = json!({"property": self.id, "sub": f.sub, "profile": self.profile, "seed": self.seed,
                "case": f.case, "message": f.message});
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("replay file");
            println!("{} [{}] {}: {}", self.id, self.profile, f.sub, f.message);
            println!("  case: {}", f.case);
            replay = json!(path.to_string_lossy());
        }
        let subs: BTreeMap<&String, Value> = stats
            .iter()
            .map(|(k, s)| {
                (k, json!({"evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial, "exhaustive": s.exhaustive,
                    "classes": s.classes, "samples": s.samples, "wall_ms": s.wall_ms, "note": s.note}))
            })
            .collect();
        let doc = json!({"property": self.id, "profile": self.profile, "seed": self.seed,
            "violations": failures.len(), "replay": replay, "subs": subs,
            "findings": std::mem::take(&mut *self.findings.lock().unwrap()),
            "wall_s": self.start.elapsed().as_secs_f64()});
        std::fs::create_dir_all(part.parent().unwrap()).expect("part dir");
        std::fs::write(part, serde_json::to_string_pretty(&doc).unwrap()).expect("part file");
        i32::from(!failures.is_empty())
    }
}

/// Per-worker accumulator of an enumeration.
pub struct Acc<T> {
    pub evals: u64,
    pub nontrivial: u64,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<T>,
    failure: Option<(T, String)>,
    /// The case being looked at, so that a panic can be attributed.
    pub current: Option<T>,
}
impl<T: Clone> Acc<T> {
    fn new() -> Self {
        Self { evals: 0, nontrivial: 0, classes: BTreeMap::new(), samples: vec![], failure: None, current: None }
    }
    pub fn ok(&mut self, label: &'static str, n: u64) {
        self.evals += n;
        self.nontrivial += n;
        *self.classes.entry(label).or_default() += n;
    }
    pub fn trivial(&mut self, n: u64) {
        self.evals += n;
        *self.classes.entry("trivial").or_default() += n;
    }
    pub fn sample(&mut self, c: T) {
        if self.samples.len() < 1 {
            self.samples.push(c);
        }
    }
    pub fn fail(&mut self, c: T, m: String) {
        self.evals += 1;
        if self.failure.is_none() {
            self.failure = Some((c, m));
        }
    }
    pub fn failed(&self) -> bool { self.failure.is_some() }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into());
    format!("panicked: {m}")
}

/// Turns a panic inside a check into a violation.
pub fn guard(f: impl FnOnce() -> Outcome) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(e) => Err(panic_text(&*e)),
    }
}

pub fn seed_bytes(seed: u64, id: &str, sub: &str, profile: &str, worker: u64) -> [u8; 32] {
    let mut h = mix(seed ^ 0x706f_6b65_72);
    for b in id.bytes().chain([0]).chain(sub.bytes()).chain([0]).chain(profile.bytes()) {
        h = mix(h ^ u64::from(b));
    }
    let mut out = [0u8; 32];
    for (i, w) in out.chunks_mut(8).enumerate() {
        w.copy_from_slice(&mix(h ^ mix(worker) ^ (i as u64) << 56).to_le_bytes());
    }
    out
}

/// Replays one saved case with a check function.
pub fn replay<T: DeserializeOwned>(v: &Value, check: impl Fn(&T) -> Outcome) -> Outcome {
    let c: T = serde_json::from_value(v.clone()).expect("replay file does not decode");
    guard(|| check(&c))
}

pub fn no_shrink<T>(c: T, _: &dyn Fn(&T) -> bool) -> T { c }
