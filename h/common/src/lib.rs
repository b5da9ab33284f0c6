//! The part every check shares: case generation from VERIF_SEED with proptest,
//! parallel running, shrinking, replay files, known findings, evidence.
//!
//! A check binary builds one [`Check`], calls [`Check::run`] once per generator
//! and oracle, and ends with [`Check::finish`].
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

/// What an oracle says about a case on which the property held.
#[derive(Default, Debug)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}
impl Obs {
    pub fn new(nontrivial: bool) -> Self { Obs { nontrivial, classes: vec![] } }
    pub fn class(mut self, on: bool, name: &'static str) -> Self {
        if on {
            self.classes.push(name);
        }
        self
    }
}
/// An oracle's complaint. `sig` identifies the defect for the known-findings file.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self { Fail { sig: None, msg } }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self { Fail { sig: None, msg: msg.into() } }
}
pub type Verdict = Result<Obs, Fail>;

#[macro_export]
macro_rules! ensure_that {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::Fail::from(format!($($a)*))); } };
}
#[macro_export]
macro_rules! ensure_same {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::Fail::from(format!("{}: got {:?}, expected {:?}", format!($($f)*), a, b))); }
    }};
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Runs `f`, turning a panic into its message (with the place it came from).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Default)]
struct Stats {
    evaluations: usize,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, usize>,
    samples: Vec<Value>,
    known: BTreeMap<String, usize>,
}

pub struct Check {
    id: &'static str,
    seed: u64,
    thorough: bool,
    started: Instant,
    verif: PathBuf,
    known: Vec<(String, String)>,
    total: Stats,
    rules: Vec<String>,
    per_gen: BTreeMap<String, Value>,
    replay: Option<(String, Value)>,
    replayed: bool,
    violation: Option<PathBuf>,
    assumptions: Vec<String>,
}

/// The case each worker is on, for the watchdog: code under test that does not
/// come back from a case within [`HANG`] breaks every property it is part of.
struct Slots<C>(Vec<Mutex<Option<(Instant, C)>>>, AtomicBool);
const HANG: std::time::Duration = std::time::Duration::from_secs(150);
impl<C: Clone> Slots<C> {
    fn new(n: usize) -> Self { Slots((0..n).map(|_| Mutex::new(None)).collect(), AtomicBool::new(false)) }
    fn enter(&self, k: usize, c: &C) { *self.0[k].lock().unwrap() = Some((Instant::now(), c.clone())); }
    fn leave(&self, k: usize) { *self.0[k].lock().unwrap() = None; }
    fn watch(&self, on_hang: impl Fn(&C)) {
        while !self.1.load(Ordering::Relaxed) {
            std::thread::park_timeout(std::time::Duration::from_millis(200));
            for s in &self.0 {
                if let Some((t, c)) = &*s.lock().unwrap() {
                    if t.elapsed() > HANG {
                        on_hang(c);
                    }
                }
            }
        }
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl Check {
    pub fn new(id: &'static str) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_else(|| "panic".into());
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{loc}]"));
        }));
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let mut args = std::env::args().skip(2);
        let mut replay = None;
        while let Some(a) = args.next() {
            if a == "--replay" {
                let p = args.next().expect("--replay PATH");
                let v: Value = serde_json::from_slice(&std::fs::read(&p).expect("replay file")).expect("replay json");
                replay = Some((v["generator"].as_str().unwrap().to_string(), v["case"].clone()));
            }
        }
        let known = std::fs::read_to_string(verif.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // known: property=<id> sig=<signature> <what fails>
                let l = l.strip_prefix("known: property=")?;
                let (p, rest) = l.split_once(" sig=")?;
                let (sig, what) = rest.split_once(' ')?;
                (p == id).then(|| (sig.to_string(), what.to_string()))
            })
            .collect();
        Check {
            id,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
            started: Instant::now(),
            verif,
            known,
            total: Stats::default(),
            rules: vec![],
            per_gen: BTreeMap::new(),
            replay,
            replayed: false,
            violation: None,
            assumptions: vec![],
        }
    }

    pub fn thorough(&self) -> bool { self.thorough }
    pub fn seed(&self) -> u64 { self.seed }
    /// `quick` cases, or `quick * factor` in the thorough tier.
    pub fn cases(&self, quick: usize, factor: usize) -> usize {
        if self.thorough { quick * factor } else { quick }
    }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }

    fn judge<C>(oracle: &(impl Fn(&C) -> Verdict + Sync), c: &C) -> Verdict {
        match guarded(|| oracle(c)) {
            Ok(v) => v,
            Err(p) => Err(Fail { sig: None, msg: format!("panicked: {p}") }),
        }
    }

    /// Runs `cases` cases of `strategy` through `oracle` on `threads` threads.
    #[allow(clippy::too_many_arguments)]
    pub fn run<S, C>(
        &mut self,
        name: &str,
        rule: &str,
        cases: usize,
        strategy: impl Fn() -> S + Sync,
        oracle: impl Fn(&C) -> Verdict + Sync,
    ) where
        S: Strategy<Value = C>,
        C: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static, {
        if let Some((g, v)) = &self.replay {
            if g == name {
                let c: C = serde_json::from_value(v.clone()).expect("replay case");
                self.replayed = true;
                match Self::judge(&oracle, &c) {
                    Ok(_) => println!("replay: the property holds on this case"),
                    Err(f) => self.report(name, &c, &f, None),
                }
            }
            return;
        }
        if self.violation.is_some() {
            return;
        }
        let t0 = Instant::now();
        let shards = 8.min(cases.max(1));
        let stop = AtomicBool::new(false);
        let next = AtomicUsize::new(0);
        let known: HashSet<&str> = self.known.iter().map(|k| k.0.as_str()).collect();
        let outcome: Mutex<Vec<(usize, C, Fail)>> = Mutex::new(vec![]);
        let all: Mutex<Vec<Stats>> = Mutex::new(vec![]);
        let slots: Slots<C> = Slots::new(shards);
        std::thread::scope(|sc| {
            let watcher = sc.spawn(|| slots.watch(|c| self.hang(name, c)));
            let workers: Vec<_> = (0..shards).map(|_| {
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    let mut seed = [0u8; 32];
                    seed[..8].copy_from_slice(&self.seed.to_le_bytes());
                    seed[8..16].copy_from_slice(&hash_str(self.id).to_le_bytes());
                    seed[16..24].copy_from_slice(&hash_str(name).to_le_bytes());
                    seed[24..].copy_from_slice(&(k as u64).to_le_bytes());
                    let n = cases / shards + usize::from(k < cases % shards);
                    let st = std::cell::RefCell::new(Stats::default());
                    let failing = std::cell::Cell::new(false);
                    let mut r = TestRunner::new_with_rng(
                        Config { cases: n as u32, failure_persistence: None, max_shrink_iters: 4000, max_shrink_time: 60_000, max_global_rejects: 1 << 20, ..Config::default() },
                        TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                    );
                    let last_fail = std::cell::RefCell::new(None);
                    let res = r.run(&strategy(), |c| {
                        if stop.load(Ordering::Relaxed) && !failing.get() {
                            return Ok(());
                        }
                        slots.enter(k, &c);
                        let v = Self::judge(&oracle, &c);
                        slots.leave(k);
                        let mut st = st.borrow_mut();
                        match v {
                            Ok(o) => {
                                if !failing.get() {
                                    st.evaluations += 1;
                                    for cl in o.classes {
                                        *st.classes.entry(cl.to_string()).or_default() += 1;
                                    }
                                    if o.nontrivial {
                                        let s = serde_json::to_string(&c).unwrap();
                                        let fresh = st.nontrivial.insert(hash_str(&s));
                                        if fresh && st.samples.len() < 2 && s.len() < 4000 {
                                            st.samples.push(json!({"generator": name, "case": serde_json::from_str::<Value>(&s).unwrap()}));
                                        }
                                    }
                                }
                                Ok(())
                            }
                            Err(f) => {
                                if let Some(sig) = &f.sig {
                                    if known.contains(sig.as_str()) {
                                        if !failing.get() {
                                            st.evaluations += 1;
                                            *st.known.entry(sig.clone()).or_default() += 1;
                                        }
                                        return Ok(());
                                    }
                                }
                                failing.set(true);
                                *last_fail.borrow_mut() = Some(f.clone());
                                Err(TestCaseError::fail(f.msg))
                            }
                        }
                    });
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(_, c)) => {
                            stop.store(true, Ordering::Relaxed);
                            let f = match Self::judge(&oracle, &c) {
                                Err(f) => f,
                                Ok(_) => last_fail.into_inner().unwrap(),
                            };
                            outcome.lock().unwrap().push((k, c, f));
                        }
                        Err(TestError::Abort(r)) => {
                            eprintln!("generator {name} aborted: {r}");
                            std::process::exit(3);
                        }
                    }
                    all.lock().unwrap().push(st.into_inner());
                }).expect("spawn")
            }).collect();
            let ends: Vec<_> = workers.into_iter().map(|w| w.join()).collect();
            slots.1.store(true, Ordering::Relaxed);
            watcher.thread().unpark();
            assert!(ends.iter().all(Result::is_ok), "a worker of the harness itself panicked");
        });
        let mut g = Stats::default();
        for s in all.into_inner().unwrap() {
            g.evaluations += s.evaluations;
            g.nontrivial.extend(s.nontrivial);
            for (k, v) in s.classes {
                *g.classes.entry(k).or_default() += v;
            }
            for (k, v) in s.known {
                *g.known.entry(k).or_default() += v;
            }
            g.samples.extend(s.samples);
        }
        g.samples.sort_by_key(|v| v.to_string());
        g.samples.truncate(3);
        self.rules.push(format!("[{name}] {rule}"));
        self.per_gen.insert(
            name.into(),
            json!({"evaluations": g.evaluations, "distinct_nontrivial": g.nontrivial.len(), "classes": g.classes,
                   "known_findings_hit": g.known, "wall_s": t0.elapsed().as_secs_f64()}),
        );
        self.total.evaluations += g.evaluations;
        self.total.nontrivial.extend(g.nontrivial.iter().map(|h| h ^ hash_str(name)));
        self.total.samples.extend(g.samples);
        for (k, v) in g.known {
            *self.total.known.entry(k).or_default() += v;
        }
        let mut out = outcome.into_inner().unwrap();
        out.sort_by_key(|o| o.0);
        if let Some((_, c, f)) = out.into_iter().next() {
            self.report(name, &c, &f, Some(cases));
        }
    }

    /// Runs the oracle over a fixed list (an enumerated space, or regression inputs).
    pub fn run_list<C>(&mut self, name: &str, rule: &str, list: Vec<C>, oracle: impl Fn(&C) -> Verdict + Sync)
    where C: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static {
        if let Some((g, v)) = &self.replay {
            if g == name {
                let c: C = serde_json::from_value(v.clone()).expect("replay case");
                self.replayed = true;
                match Self::judge(&oracle, &c) {
                    Ok(_) => println!("replay: the property holds on this case"),
                    Err(f) => self.report(name, &c, &f, None),
                }
            }
            return;
        }
        if self.violation.is_some() {
            return;
        }
        let known: HashSet<String> = self.known.iter().map(|k| k.0.clone()).collect();
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let bad: Mutex<Option<(usize, Fail)>> = Mutex::new(None);
        let stats = Mutex::new(Stats::default());
        let slots: Slots<C> = Slots::new(8);
        let slots = &slots;
        let (oracle, list, next, known, stats, bad) = (&oracle, &list, &next, &known, &stats, &bad);
        std::thread::scope(|sc| {
            let watcher = sc.spawn(|| slots.watch(|c| self.hang(name, c)));
            let workers: Vec<_> = (0..8.min(list.len().max(1))).map(|k| {
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let Some(c) = list.get(i) else { return };
                    slots.enter(k, c);
                    let v = Self::judge(oracle, c);
                    slots.leave(k);
                    match v {
                        Ok(o) => {
                            let mut st = stats.lock().unwrap();
                            st.evaluations += 1;
                            for cl in o.classes { *st.classes.entry(cl.to_string()).or_default() += 1; }
                            if o.nontrivial {
                                let s = serde_json::to_string(c).unwrap();
                                st.nontrivial.insert(hash_str(&s));
                                if st.samples.len() < 2 && s.len() < 4000 {
                                    st.samples.push(json!({"generator": name, "case": serde_json::from_str::<Value>(&s).unwrap()}));
                                }
                            }
                        }
                        Err(f) => {
                            if f.sig.as_ref().is_some_and(|s| known.contains(s)) {
                                let mut st = stats.lock().unwrap();
                                st.evaluations += 1;
                                *st.known.entry(f.sig.unwrap()).or_default() += 1;
                                continue;
                            }
                            let mut b = bad.lock().unwrap();
                            if b.as_ref().map_or(true, |x| x.0 > i) { *b = Some((i, f)); }
                        }
                    }
                }).expect("spawn")
            }).collect();
            let ends: Vec<_> = workers.into_iter().map(|w| w.join()).collect();
            slots.1.store(true, Ordering::Relaxed);
            watcher.thread().unpark();
            assert!(ends.iter().all(Result::is_ok), "a worker of the harness itself panicked");
        });
        let g = std::mem::take(&mut *stats.lock().unwrap());
        self.rules.push(format!("[{name}] {rule}"));
        self.per_gen.insert(name.into(), json!({"evaluations": g.evaluations, "distinct_nontrivial": g.nontrivial.len(),
            "classes": g.classes, "known_findings_hit": g.known, "wall_s": t0.elapsed().as_secs_f64()}));
        self.total.evaluations += g.evaluations;
        self.total.nontrivial.extend(g.nontrivial.iter().map(|h| h ^ hash_str(name)));
        self.total.samples.extend(g.samples);
        for (k, v) in g.known { *self.total.known.entry(k).or_default() += v; }
        let first = bad.lock().unwrap().take();
        if let Some((i, f)) = first {
            let c = list[i].clone();
            self.report(name, &c, &f, None);
        }
    }

    fn hang<C: Serialize + Debug>(&self, name: &str, c: &C) {
        let path = self.write_replay(name, c, &Fail::from(format!("no answer within {HANG:?}")), None);
        let mut d = format!("{c:?}");
        d = d.chars().take(1500).collect();
        println!("{}/{name}: no answer within {HANG:?}\n  case: {d}\nVIOLATION property={} replay={}", self.id, self.id, path.display());
        std::process::exit(1);
    }

    fn write_replay<C: Serialize>(&self, name: &str, c: &C, f: &Fail, cases: Option<usize>) -> PathBuf {
        let dir = self.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.id, name));
        let v = json!({"property": self.id, "generator": name, "seed": self.seed, "cases": cases,
            "case": c, "failure": f.msg, "signature": f.sig,
            "how": format!("/verif/run.sh {} --replay {}", self.id, path.display())});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        path
    }

    fn report<C: Serialize + Debug>(&mut self, name: &str, c: &C, f: &Fail, cases: Option<usize>) {
        let path = self.write_replay(name, c, f, cases);
        let mut d = format!("{c:?}");
        d = d.chars().take(1500).collect();
        println!("{}/{name}: {}\n  case: {d}", self.id, f.msg);
        self.violation = Some(path);
    }

    pub fn known_path(&self) -> &Path { &self.verif }

    pub fn finish(self) -> ! {
        if self.replay.is_some() {
            if !self.replayed {
                eprintln!("replay file names no generator of this check");
                std::process::exit(3);
            }
            match self.violation {
                Some(p) => {
                    println!("VIOLATION property={} replay={}", self.id, p.display());
                    std::process::exit(1)
                }
                None => std::process::exit(0),
            }
        }
        let violations = usize::from(self.violation.is_some());
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.total.evaluations,
                "distinct_nontrivial": self.total.nontrivial.len(),
                "rule": self.rules.join(" | "),
                "samples": self.total.samples,
                "generators": self.per_gen,
                "known_findings_hit": self.total.known,
            },
            "assumptions": self.assumptions,
            "wall_s": self.started.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let dir = self.verif.join("evidence");
        std::fs::create_dir_all(&dir).expect("evidence dir");
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
        for (sig, what) in &self.known {
            println!("KNOWN-FINDING: property={} {} ({what})", self.id, sig);
        }
        match self.violation {
            Some(p) => {
                println!("VIOLATION property={} replay={}", self.id, p.display());
                std::process::exit(1)
            }
            None => {
                println!("{}: held on {} cases ({} distinct non-trivial) in {:.1}s", self.id, self.total.evaluations, self.total.nontrivial.len(), self.started.elapsed().as_secs_f64());
                std::process::exit(0)
            }
        }
    }
}
