//! Generates cases, runs each in a thread of its own, shrinks the first failure.
use crate::sys;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub const WORKERS: u64 = 8;
const STACK: usize = 2 << 20;
const BUDGET: u64 = 1 << 30;
pub const WATCHDOG_S: u64 = 90;
/// after this time a quick check generates no more cases; the evidence counts those it did
const QUICK_CAP: std::time::Duration = std::time::Duration::from_secs(420);
pub const HANG_EXIT: i32 = 3;

/// What a passing case was like.
#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, classes: vec![] }
    }
    pub fn class(mut self, name: &'static str, yes: bool) -> Self {
        if yes {
            self.classes.push(name)
        }
        self
    }
}

/// `Err` is a violation of the property.
pub type Verdict = Result<Info, String>;

pub enum CaseResult {
    Held(Info),
    Violated(String),
    /// the harness itself is broken
    Broken(String),
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub trace: Option<PathBuf>,
    pub scale: f64,
    pub start: std::time::Instant,
}

pub struct Failure {
    pub facet: &'static str,
    pub index: u64,
    pub message: String,
    pub case: Value,
}

#[derive(Default)]
pub struct Report {
    pub name: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
    pub failure: Option<Failure>,
    pub broken: Option<String>,
    pub shrink_steps: u64,
}

pub struct Facet {
    pub name: &'static str,
    pub run: Box<dyn Fn(&Ctx) -> Report>,
    pub replay: Box<dyn Fn(&Value) -> CaseResult>,
    /// (context, index, predicate "crashes") -> shrunk case
    #[allow(clippy::type_complexity)]
    pub shrink_with: Box<dyn Fn(&Ctx, u64, &mut dyn FnMut(&Value) -> bool) -> Value>,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// The seed with which a text is judged, whoever comes up with it.
pub fn seed_of_text(text: &str) -> u64 {
    fnv(&serde_json::to_string(text).expect("text to json"))
}

fn runner_for(ctx: &Ctx, facet: &str, index: u64, config: &Config) -> TestRunner {
    let mut seed = [0u8; 32];
    seed[..8].copy_from_slice(&ctx.seed.to_le_bytes());
    seed[8..16].copy_from_slice(&fnv(&ctx.prop).to_le_bytes());
    seed[16..24].copy_from_slice(&fnv(facet).to_le_bytes());
    seed[24..].copy_from_slice(&index.to_le_bytes());
    TestRunner::new_with_rng(config.clone(), TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

pub fn run_case<C: Sync>(check: &(dyn Fn(&C) -> Verdict + Sync), case: &C, seed: u64) -> CaseResult {
    let mut out = CaseResult::Broken("no result".into());
    std::thread::scope(|s| {
        let slot = &mut out;
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                sys::enter_case(seed, BUDGET);
                let r = catch_unwind(AssertUnwindSafe(|| check(case)));
                sys::leave_case();
                *slot = match r {
                    Ok(Ok(info)) => CaseResult::Held(info),
                    Ok(Err(msg)) => CaseResult::Violated(msg),
                    Err(_) => {
                        let (loc, msg) = sys::take_panic().unwrap_or_default();
                        if loc.starts_with("src/") || loc.contains("/harness/src/") {
                            CaseResult::Broken(format!("harness panicked at {loc}: {msg}"))
                        } else {
                            CaseResult::Violated(format!("panicked at {loc}: {msg}"))
                        }
                    }
                };
            })
            .expect("spawn");
        h.join().expect("case thread");
    });
    out
}

pub fn facet<C>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: impl Fn() -> BoxedStrategy<C> + Send + Sync + Clone + 'static,
    check: impl Fn(&C) -> Verdict + Send + Sync + Clone + 'static,
) -> Facet
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
{
    let (st, ck) = (strategy.clone(), check.clone());
    let run = move |ctx: &Ctx| -> Report {
        let n = ((if ctx.thorough { thorough } else { quick }) as f64 * ctx.scale) as u64;
        let first_failure = AtomicU64::new(u64::MAX);
        let total = Mutex::new(Report { name, ..Default::default() });
        let progress: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(0)).collect();
        let finished = AtomicU64::new(0);
        std::thread::scope(|s| {
            // cases take milliseconds; one that takes this long does not end
            let (prog, fin) = (&progress, &finished);
            s.spawn(move || {
                let mut last = vec![(u64::MAX, 0u64); WORKERS as usize];
                while fin.load(Ordering::SeqCst) < WORKERS {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    for (w, l) in last.iter_mut().enumerate() {
                        let now = prog[w].load(Ordering::Relaxed);
                        *l = if now == l.0 { (now, l.1 + 1) } else { (now, 0) };
                        if now != u64::MAX && l.1 > WATCHDOG_S * 10 {
                            eprintln!("WATCHDOG: facet {name} case {now} runs for more than {WATCHDOG_S} s");
                            std::process::exit(HANG_EXIT);
                        }
                    }
                }
            });
            for w in 0..WORKERS {
                let (st, ck, first_failure, total, progress, finished) =
                    (&st, &ck, &first_failure, &total, &progress, &finished);
                s.spawn(move || {
                    let config = Config { failure_persistence: None, ..Config::default() };
                    let strategy = st();
                    let mut r = Report { name, ..Default::default() };
                    let mut i = w;
                    while i < n && i < first_failure.load(Ordering::SeqCst) {
                        // a machine too slow for the planned number of cases
                        if !ctx.thorough && ctx.start.elapsed() > QUICK_CAP {
                            break;
                        }
                        progress[w as usize].store(i, Ordering::Relaxed);
                        let mut tr = runner_for(ctx, name, i, &config);
                        let tree = match strategy.new_tree(&mut tr) {
                            Ok(t) => t,
                            Err(e) => {
                                r.broken = Some(format!("generator: {e}"));
                                first_failure.fetch_min(i, Ordering::SeqCst);
                                break;
                            }
                        };
                        let case = tree.current();
                        let text = serde_json::to_string(&case).expect("case to json");
                        let hash = fnv(&text);
                        if let Some(dir) = &ctx.trace {
                            let v = json!({"facet": name, "index": i, "case": case});
                            std::fs::write(dir.join(format!("{w}.json")), v.to_string()).expect("trace");
                        }
                        let res = run_case(ck, &case, hash);
                        r.evaluations += 1;
                        match res {
                            CaseResult::Held(info) => {
                                for c in info.classes {
                                    *r.classes.entry(c).or_default() += 1;
                                }
                                if info.nontrivial {
                                    r.nontrivial += 1;
                                    r.distinct.insert(hash);
                                    if r.samples.len() < 2 {
                                        r.samples.push((i, text.chars().take(700).collect()));
                                    }
                                }
                            }
                            CaseResult::Violated(message) => {
                                first_failure.fetch_min(i, Ordering::SeqCst);
                                r.failure = Some(Failure {
                                    facet: name,
                                    index: i,
                                    message,
                                    case: serde_json::to_value(&case).unwrap(),
                                });
                                break;
                            }
                            CaseResult::Broken(m) => {
                                first_failure.fetch_min(i, Ordering::SeqCst);
                                r.broken = Some(format!("{m}; case {text}"));
                                break;
                            }
                        }
                        i += WORKERS;
                    }
                    progress[w as usize].store(u64::MAX, Ordering::Relaxed);
                    let mut t = total.lock().unwrap();
                    t.evaluations += r.evaluations;
                    t.nontrivial += r.nontrivial;
                    t.distinct.extend(r.distinct);
                    for (k, v) in r.classes {
                        *t.classes.entry(k).or_default() += v;
                    }
                    t.samples.extend(r.samples);
                    if let Some(f) = r.failure {
                        if t.failure.as_ref().map_or(true, |o| f.index < o.index) {
                            t.failure = Some(f);
                        }
                    }
                    if t.broken.is_none() {
                        t.broken = r.broken;
                    }
                    finished.fetch_add(1, Ordering::SeqCst);
                });
            }
        });
        let mut report = total.into_inner().unwrap();
        report.samples.sort();
        report.samples.truncate(3);
        if report.broken.is_none() {
            if let Some(f) = report.failure.take() {
                // shrink: deterministic, everything lives in the value tree
                let config = Config { failure_persistence: None, ..Config::default() };
                let strategy = st();
                let mut tr = runner_for(ctx, name, f.index, &config);
                let mut tree = strategy.new_tree(&mut tr).expect("regenerate");
                let mut best = f;
                let mut steps = 0;
                if tree.simplify() {
                    while steps < 4000 {
                        steps += 1;
                        let case = tree.current();
                        let hash = fnv(&serde_json::to_string(&case).unwrap());
                        match run_case(&ck, &case, hash) {
                            CaseResult::Violated(message) => {
                                best.message = message;
                                best.case = serde_json::to_value(&case).unwrap();
                                if !tree.simplify() {
                                    break;
                                }
                            }
                            _ => {
                                if !tree.complicate() {
                                    break;
                                }
                            }
                        }
                    }
                }
                report.shrink_steps = steps;
                report.failure = Some(best);
            }
        }
        report
    };
    let ck = check;
    let replay = move |v: &Value| -> CaseResult {
        match serde_json::from_value::<C>(v.clone()) {
            Ok(case) => {
                let hash = fnv(&serde_json::to_string(&case).unwrap());
                run_case(&ck, &case, hash)
            }
            Err(e) => CaseResult::Broken(format!("replay file: {e}")),
        }
    };
    let st = strategy;
    let shrink_with = move |ctx: &Ctx, index: u64, fails: &mut dyn FnMut(&Value) -> bool| -> Value {
        let config = Config { failure_persistence: None, ..Config::default() };
        let strategy = st();
        let mut tr = runner_for(ctx, name, index, &config);
        let mut tree = strategy.new_tree(&mut tr).expect("regenerate");
        let mut best = serde_json::to_value(tree.current()).unwrap();
        let mut steps = 0;
        if tree.simplify() {
            while steps < 300 {
                steps += 1;
                let v = serde_json::to_value(tree.current()).unwrap();
                if fails(&v) {
                    best = v;
                    if !tree.simplify() {
                        break;
                    }
                } else if !tree.complicate() {
                    break;
                }
            }
        }
        best
    };
    Facet { name, run: Box::new(run), replay: Box::new(replay), shrink_with: Box::new(shrink_with) }
}

/// `if !cond { return Err(format!(..)) }`
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => {
                if *a != *b {
                    return Err(format!("{}\n   got: {:?}\n  want: {:?}", format!($($arg)*), a, b));
                }
            }
        }
    }};
}
