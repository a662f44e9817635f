//! Generated-case runner: seeded proptest, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
}

impl Ctx {
    /// Number of cases: `q` in the quick tier, `t` times more in the thorough one.
    pub fn cases(&self, q: u32, t: u32) -> u32 {
        let scale: f64 = std::env::var("HV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let n = match self.tier {
            Tier::Quick => q,
            Tier::Thorough => q.saturating_mul(t),
        };
        ((n as f64 * scale) as u32).max(1)
    }
}

/// What executing one case told us.
#[derive(Default, Debug)]
pub struct Outcome {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub failure: Option<String>,
    /// Exact keys of deviations that may be listed in known_findings.txt.
    pub findings: Vec<String>,
    pub inconclusive: bool,
}

impl Outcome {
    pub fn ok(nontrivial: bool) -> Self {
        Outcome { nontrivial, ..Default::default() }
    }
    pub fn fail<S: Into<String>>(s: S) -> Self {
        Outcome { nontrivial: true, failure: Some(s.into()), ..Default::default() }
    }
    pub fn class(mut self, c: &'static str) -> Self {
        self.classes.push(c);
        self
    }
}

impl From<Result<Outcome, String>> for Outcome {
    fn from(r: Result<Outcome, String>) -> Self {
        match r {
            Ok(o) => o,
            Err(e) => Outcome::fail(e),
        }
    }
}

pub struct Violation {
    pub sub: String,
    pub case: Value,
    pub message: String,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
    pub classes: BTreeMap<String, u64>,
    pub subs: BTreeMap<String, u64>,
    pub findings: BTreeSet<String>,
    pub inconclusive: u64,
    pub violation: Option<Violation>,
}

pub trait DynSub {
    fn name(&self) -> String;
    fn run(&self, ctx: &Ctx, rep: &mut Report);
    fn replay(&self, case: Value) -> Outcome;
}

pub trait CaseT: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static> CaseT for T {}

type Exec<C> = Box<dyn Fn(&C) -> Outcome + Send + Sync>;
type Strat<C> = Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>;

pub struct Sub<C: CaseT> {
    pub name: &'static str,
    pub cases: (u32, u32),
    pub threads: usize,
    /// Re-executions of a failing (shrunk) case that must all fail too before it is reported (0: report at once).
    pub confirm: usize,
    /// Number of shrink executions allowed.
    pub shrink: u32,
    pub strategy: Strat<C>,
    pub exec: Exec<C>,
    /// Called once before the cases.
    pub setup: Option<fn()>,
    /// A case that runs for this long is hung (cases usually need milliseconds).
    pub hang: Duration,
    /// Whether a hung case violates the property (the library never blocks for good).
    pub hang_violates: bool,
    /// How often a replay executes its case (schedules differ) before it counts as passing.
    pub replays: u32,
}

impl<C: CaseT> Sub<C> {
    pub fn new(
        name: &'static str,
        cases: (u32, u32),
        strategy: impl Fn() -> BoxedStrategy<C> + Send + Sync + 'static,
        exec: impl Fn(&C) -> Outcome + Send + Sync + 'static,
    ) -> Self {
        Sub {
            name,
            cases,
            threads: 8,
            confirm: 0,
            shrink: 3000,
            strategy: Box::new(strategy),
            exec: Box::new(exec),
            setup: None,
            hang: Duration::from_secs(150),
            hang_violates: false,
            replays: 1,
        }
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn confirm(mut self, n: usize) -> Self {
        self.confirm = n;
        self
    }
    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink = n;
        self
    }
    pub fn setup(mut self, f: fn()) -> Self {
        self.setup = Some(f);
        self
    }
    pub fn hang_violates(mut self, d: Duration) -> Self {
        self.hang = d;
        self.hang_violates = true;
        self
    }
    pub fn replays(mut self, n: u32) -> Self {
        self.replays = n;
        self
    }
    pub fn boxed(self) -> Box<dyn DynSub> {
        Box::new(self)
    }
}

fn hash_of(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn guarded<C: CaseT>(exec: &Exec<C>, case: &C) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| exec(case))) {
        Ok(o) => o,
        Err(e) => {
            let text = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            if text.starts_with("HARNESS:") {
                eprintln!("{text}");
                std::process::exit(3);
            }
            Outcome::fail(format!("panicked: {text}"))
        }
    }
}

/// Writes a replay file and prints the violation line.
pub fn report_violation(ctx: &Ctx, v: &Violation) -> ! {
    let dir = crate::verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": ctx.id, "sub": v.sub, "case": v.case, "message": v.message,
                      "seed": ctx.seed, "tier": format!("{:?}", ctx.tier).to_lowercase()});
    let text = serde_json::to_string_pretty(&body).unwrap();
    let path = dir.join(format!("{}-{}-{:016x}.json", ctx.id, v.sub, hash_of(&text)));
    std::fs::write(&path, text).unwrap();
    println!("{}: {}", v.sub, v.message);
    println!("VIOLATION property={} replay={}", ctx.id, path.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    crate::kill_children();
    std::process::exit(1);
}

impl<C: CaseT> DynSub for Sub<C> {
    fn name(&self) -> String {
        self.name.to_string()
    }

    fn run(&self, ctx: &Ctx, rep: &mut Report) {
        if rep.violation.is_some() {
            return;
        }
        if let Some(f) = self.setup {
            f();
        }
        let total = ctx.cases(self.cases.0, self.cases.1);
        let threads = self.threads.min(total as usize).max(1);
        let per = total.div_ceil(threads as u32);
        let shared = Mutex::new(std::mem::take(rep));
        let stop = AtomicBool::new(false);
        let evals = AtomicU64::new(0);
        let running: Vec<Mutex<Option<(Instant, C)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let finished = AtomicU64::new(0);
        let trace = std::env::var("HV_TRACE").is_ok();

        std::thread::scope(|scope| {
            for t in 0..threads {
                let (shared, stop, evals, running, finished) = (&shared, &stop, &evals, &running[t], &finished);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(scope, move || {
                    let mut seed = [0u8; 32];
                    seed[..8].copy_from_slice(&ctx.seed.to_le_bytes());
                    seed[8..16].copy_from_slice(&(t as u64).to_le_bytes());
                    seed[16..24].copy_from_slice(&hash_of(self.name).to_le_bytes());
                    seed[24..32].copy_from_slice(&hash_of(&ctx.id).to_le_bytes());
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                    let config = Config {
                        cases: per,
                        failure_persistence: None,
                        max_shrink_iters: self.shrink,
                        max_shrink_time: 90_000,
                        max_global_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let failed = std::cell::Cell::new(false);
                    let result = runner.run(&(self.strategy)(), |case| {
                        if stop.load(Ordering::Relaxed) && !failed.get() {
                            return Ok(());
                        }
                        *running.lock().unwrap() = Some((Instant::now(), case.clone()));
                        if trace { eprintln!("[{t}] {}", serde_json::to_string(&case).unwrap()); }
                        let out = guarded(&self.exec, &case);
                        *running.lock().unwrap() = None;
                        if failed.get() {
                            // Shrinking.
                            return match out.failure {
                                Some(f) => Err(TestCaseError::fail(f)),
                                None => Ok(()),
                            };
                        }
                        evals.fetch_add(1, Ordering::Relaxed);
                        let mut rep = shared.lock().unwrap();
                        for c in &out.classes {
                            *rep.classes.entry(format!("{}:{}", self.name, c)).or_default() += 1;
                        }
                        for f in out.findings {
                            rep.findings.insert(f);
                        }
                        if out.inconclusive {
                            rep.inconclusive += 1;
                        }
                        if out.nontrivial {
                            let text = serde_json::to_string(&case).unwrap();
                            let h = hash_of(&(self.name.to_string() + &text));
                            rep.nontrivial.insert(h);
                            let have = rep.samples.iter().filter(|s| s["sub"] == self.name).count();
                            if have < 2 && text.len() < 6000 {
                                rep.samples.push(json!({"sub": self.name, "case": serde_json::to_value(&case).unwrap()}));
                            }
                        }
                        drop(rep);
                        match out.failure {
                            Some(f) => {
                                if stop.swap(true, Ordering::SeqCst) {
                                    return Ok(());
                                }
                                failed.set(true);
                                Err(TestCaseError::fail(f))
                            }
                            None => Ok(()),
                        }
                    });
                    match result {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, case)) => {
                            let mut confirmed = true;
                            let mut message = reason.message().to_string();
                            for _ in 0..self.confirm {
                                match guarded(&self.exec, &case).failure {
                                    Some(m) => message = m,
                                    None => confirmed = false,
                                }
                            }
                            let mut rep = shared.lock().unwrap();
                            if confirmed {
                                rep.violation = Some(Violation {
                                    sub: self.name.to_string(),
                                    case: serde_json::to_value(&case).unwrap(),
                                    message,
                                });
                            } else {
                                eprintln!("unconfirmed: {message} {}", serde_json::to_string(&case).unwrap());
                                rep.inconclusive += 1;
                                stop.store(false, Ordering::SeqCst);
                            }
                        }
                        Err(TestError::Abort(reason)) => {
                            eprintln!("HARNESS: generator aborted: {reason}");
                            std::process::exit(3);
                        }
                    }
                    finished.fetch_add(1, Ordering::SeqCst);
                }).unwrap();
            }
            // Watchdog.
            while finished.load(Ordering::SeqCst) < threads as u64 {
                std::thread::sleep(Duration::from_millis(50));
                for r in &running {
                    let guard = r.lock().unwrap();
                    if let Some((since, case)) = &*guard {
                        if since.elapsed() > self.hang {
                            if self.hang_violates {
                                let v = Violation {
                                    sub: self.name.to_string(),
                                    case: serde_json::to_value(case).unwrap(),
                                    message: format!("the case hangs: no result after {:?}", self.hang),
                                };
                                report_violation(ctx, &v);
                            }
                            eprintln!("HARNESS: case hung in {}: {}", self.name, serde_json::to_string(case).unwrap());
                            crate::kill_children();
                            std::process::exit(4);
                        }
                    }
                }
            }
        });
        *rep = shared.into_inner().unwrap();
        let n = evals.load(Ordering::Relaxed);
        rep.evaluations += n;
        *rep.subs.entry(self.name.to_string()).or_default() += n;
    }

    fn replay(&self, case: Value) -> Outcome {
        if let Some(f) = self.setup {
            f();
        }
        let case: C = serde_json::from_value(case).expect("replay case");
        let mut out = guarded(&self.exec, &case);
        for _ in 1..self.replays {
            if out.failure.is_some() {
                break;
            }
            out = guarded(&self.exec, &case);
        }
        out
    }
}

/// A weighted union that may contain zero weights.
pub fn weighted<T: Debug + 'static>(parts: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    proptest::strategy::Union::new_weighted(parts.into_iter().filter(|p| p.0 > 0).collect()).boxed()
}
