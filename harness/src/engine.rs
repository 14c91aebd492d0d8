//! The property engine: drives proptest strategies over shards, runs oracles, shrinks failures into replay files and
//! collects the evidence of a run.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

/// Why an oracle stopped early
#[derive(Debug, Clone)]
pub enum Stop {
    /// The property is violated
    Fail(String),
    /// The case is outside of the domain (or cannot be judged); counted, never silently dropped
    Discard(&'static str),
    /// The harness itself is broken
    Harness(String),
}
pub type Res<T = ()> = Result<T, Stop>;

pub fn fail<T>(msg: impl Into<String>) -> Res<T> {
    Err(Stop::Fail(msg.into()))
}
pub fn discard<T>(why: &'static str) -> Res<T> {
    Err(Stop::Discard(why))
}

#[macro_export]
macro_rules! need {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::engine::Stop::Fail(format!($($arg)*)));
        }
    };
}

/// Per-case context handed to the oracles
pub struct Cx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub shard: usize,
    /// scratch directory of this shard, absolute
    pub dir: std::path::PathBuf,
    pub tier: Tier,
}
impl Cx {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Env {
    pub seed: u64,
    pub tier: Tier,
    /// scratch directory
    pub work: std::path::PathBuf,
    /// where to write evidence and replay files to
    pub out: std::path::PathBuf,
    /// the path under which replay files will be found afterwards
    pub replay_dir: String,
    pub shards: usize,
    /// multiplies the number of cases
    pub scale: f64,
    /// what the shards are working on, for the watchdog
    pub current: std::sync::Arc<Vec<Current>>,
}
/// CPU clock of the thread, its value at the start of the case, part, case
pub type Current = Mutex<Option<(libc::clockid_t, f64, String, Box<dyn Fn() -> Value + Send>)>>;

fn cpu_seconds(clock: libc::clockid_t) -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut t) != 0 {
            return 0.0;
        }
        t.tv_sec as f64 + 1e-9 * t.tv_nsec as f64
    }
}
fn own_clock() -> libc::clockid_t {
    unsafe {
        let mut c: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        c
    }
}

#[derive(Default)]
struct PartStats {
    evaluations: u64,
    nontrivial: u64,
    discarded: BTreeMap<String, u64>,
    labels: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
}

pub struct Failure {
    pub part: String,
    pub case: Value,
    pub message: String,
    pub shrink_steps: u32,
    pub case_seed: String,
}

/// A part of a property check: a generator and an oracle
pub trait Part: Sync + Send {
    fn name(&self) -> &str;
    fn run_shard(&self, env: &Env, prop: &str, shard: usize, stop: &AtomicBool) -> ShardResult;
    fn replay(&self, env: &Env, case: &Value) -> Res;
}

pub struct ShardResult {
    stats: PartStatsOut,
    failure: Option<Failure>,
    harness_error: Option<String>,
}
pub struct PartStatsOut(PartStats);

pub struct P<C> {
    name: &'static str,
    quick: u64,
    thorough: u64,
    strat: Box<dyn Fn() -> BoxedStrategy<C> + Sync + Send>,
    oracle: Box<dyn Fn(&C, &mut Cx) -> Res + Sync + Send>,
}

/// Builds a part. `quick` and `thorough` are the numbers of generated cases per tier (over all shards).
pub fn part<C, S>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strat: impl Fn() -> S + Sync + Send + 'static,
    oracle: impl Fn(&C, &mut Cx) -> Res + Sync + Send + 'static,
) -> Box<dyn Part>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
    S: Strategy<Value = C> + 'static,
{
    Box::new(P {
        name,
        quick,
        thorough,
        strat: Box::new(move || strat().boxed()),
        oracle: Box::new(oracle),
    })
}

thread_local! {
    static PANIC_INFO: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs `f`, turning panics of the code under test into failures
pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    crate::sim::reset_thread_state();
    PANIC_INFO.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Err(Stop::Harness(m))) => Err(Stop::Harness(m)),
        Ok(_) if crate::sim::budget_exceeded() => Err(Stop::Fail(
            "the run does not come to an end: the budget of right-hand side evaluations is used up".to_string(),
        )),
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC_INFO
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("another thread".to_string(), "?".to_string()));
            // paths of this crate are relative ("src/..."), those of corries and its dependencies are absolute
            if loc.starts_with("src/") {
                Err(Stop::Harness(format!("harness panicked at {loc}: {msg}")))
            } else {
                Err(Stop::Fail(format!("panic at {loc}: {msg}")))
            }
        },
    }
}

/// A single case may take this much CPU time. Cases usually take milliseconds.
pub const CASE_LIMIT_S: f64 = 120.0;

/// Reports cases that never come back
pub fn watch(env: &Env, id: &'static str, mut report: std::fs::File) {
    let env = env.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for c in env.current.iter() {
            let c = c.lock().unwrap();
            if let Some((clock, t, part, case)) = c.as_ref() {
                if cpu_seconds(*clock) - t >= CASE_LIMIT_S {
                    use std::io::Write;
                    let msg = format!("the case did not come to an end within {CASE_LIMIT_S} s of CPU time");
                    let path = write_replay(&env, id, part, 1, &case(), &msg, 0, "watchdog");
                    let evidence = json!({
                        "property": id, "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
                        "seed": env.seed, "level": "exploration",
                        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped by the watchdog",
                            "samples": [case()]},
                        "assumptions": [], "wall_s": CASE_LIMIT_S, "violations": 1,
                    });
                    let _ = std::fs::write(env.out.join(format!("{id}.json")), evidence.to_string());
                    let _ = writeln!(report, "# {id} [{part}]: {msg}\nVIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
            }
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn write_replay(env: &Env, id: &str, part: &str, n: usize, case: &Value, msg: &str, steps: u32, at: &str) -> String {
    let name = format!("{id}-{part}-{n}.json");
    let doc = json!({
        "property": id, "part": part, "case": case, "message": msg, "shrink_steps": steps, "found_at": at,
    });
    let dir = env.out.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(&name), serde_json::to_string_pretty(&doc).unwrap());
    format!("{}/{name}", env.replay_dir)
}

fn hash64(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn mk_seed(seed: u64, what: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed ^ hash64(what) ^ (shard as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for chunk in out.chunks_mut(8) {
        // splitmix64
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    out
}

impl<C> P<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
{
    fn judge(&self, env: &Env, shard: usize, case: &C, cx: &mut Cx) -> Res {
        let c2 = case.clone();
        let clock = own_clock();
        *env.current[shard].lock().unwrap() = Some((
            clock,
            cpu_seconds(clock),
            self.name.to_string(),
            Box::new(move || serde_json::to_value(&c2).unwrap()),
        ));
        let r = guarded(|| (self.oracle)(case, cx));
        *env.current[shard].lock().unwrap() = None;
        r
    }

    fn cx(&self, env: &Env, shard: usize) -> Cx {
        let dir = env.work.join(format!("shard{shard}"));
        let _ = std::fs::create_dir_all(&dir);
        Cx {
            labels: vec![],
            nontrivial: false,
            shard,
            dir,
            tier: env.tier,
        }
    }
}

impl<C> Part for P<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
{
    fn name(&self) -> &str {
        self.name
    }

    fn run_shard(&self, env: &Env, prop: &str, shard: usize, stop: &AtomicBool) -> ShardResult {
        let total = match env.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64 * env.scale).ceil() as u64).max(1);
        let n = total / env.shards as u64 + u64::from((total % env.shards as u64) > shard as u64);
        let seed = mk_seed(env.seed, &format!("{prop}/{}", self.name), shard);
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
        let config = Config {
            failure_persistence: None,
            max_local_rejects: 100_000,
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = (self.strat)();
        let mut st = PartStats::default();
        let mut failure = None;
        let mut harness_error = None;
        for idx in 0..n {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    harness_error = Some(format!("generator of {prop}/{}: {e}", self.name));
                    break;
                },
            };
            let case = tree.current();
            let mut cx = self.cx(env, shard);
            let r = self.judge(env, shard, &case, &mut cx);
            st.evaluations += 1;
            for l in cx.labels.drain(..) {
                *st.labels.entry(l).or_insert(0) += 1;
            }
            match r {
                Ok(()) => {
                    if cx.nontrivial {
                        let js = serde_json::to_value(&case).unwrap();
                        if st.distinct.insert(hash64(&js.to_string())) {
                            st.nontrivial += 1;
                            if st.samples.is_empty() || (st.samples.len() < 2 && st.nontrivial % 7 == 0) {
                                st.samples.push(js);
                            }
                        }
                    }
                },
                Err(Stop::Discard(why)) => {
                    *st.discarded.entry(why.to_string()).or_insert(0) += 1;
                },
                Err(Stop::Harness(m)) => {
                    harness_error = Some(m);
                    stop.store(true, Ordering::Relaxed);
                    break;
                },
                Err(Stop::Fail(m)) => {
                    stop.store(true, Ordering::Relaxed);
                    // shrink
                    let mut best = (case, m);
                    let mut steps = 0;
                    let t0 = std::time::Instant::now();
                    let mut go = tree.simplify();
                    while go && steps < 600 && t0.elapsed().as_secs() < 30 {
                        steps += 1;
                        let c = tree.current();
                        let mut cx = self.cx(env, shard);
                        match self.judge(env, shard, &c, &mut cx) {
                            Err(Stop::Fail(m)) => {
                                best = (c, m);
                                go = tree.simplify();
                            },
                            _ => go = tree.complicate(),
                        }
                    }
                    failure = Some(Failure {
                        part: self.name.to_string(),
                        case: serde_json::to_value(&best.0).unwrap(),
                        message: best.1,
                        shrink_steps: steps,
                        case_seed: format!("seed={} shard={shard} index={idx}", env.seed),
                    });
                    break;
                },
            }
        }
        ShardResult {
            stats: PartStatsOut(st),
            failure,
            harness_error,
        }
    }

    fn replay(&self, env: &Env, case: &Value) -> Res {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| Stop::Harness(format!("bad replay file: {e}")))?;
        let mut cx = self.cx(env, 0);
        guarded(|| (self.oracle)(&c, &mut cx))
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Box<dyn Part>>,
}

/// Runs a property check. Returns the exit code.
pub fn run_property(prop: &Property, env: &Env, report: &mut dyn std::io::Write) -> i32 {
    let t0 = std::time::Instant::now();
    let mut parts_json = serde_json::Map::new();
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut samples = vec![];
    let mut failures: Vec<Failure> = vec![];
    let mut harness_errors: Vec<String> = vec![];
    for part in prop.parts.iter() {
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(usize, ShardResult)>> = Mutex::new(vec![]);
        std::thread::scope(|scope| {
            for shard in 0..env.shards {
                let (stop, results) = (&stop, &results);
                scope.spawn(move || {
                    // the code under test uses rayon's current pool; give every shard a pool of its own
                    let pool = rayon::ThreadPoolBuilder::new()
                        .num_threads(1)
                        .stack_size(16 << 20)
                        .build()
                        .expect("thread pool");
                    let r = pool.install(|| part.run_shard(env, prop.id, shard, stop));
                    results.lock().unwrap().push((shard, r));
                });
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|x| x.0);
        let mut st = PartStats::default();
        for (_, r) in results {
            let s = r.stats.0;
            st.evaluations += s.evaluations;
            for (k, v) in s.labels {
                *st.labels.entry(k).or_insert(0) += v;
            }
            for (k, v) in s.discarded {
                *st.discarded.entry(k).or_insert(0) += v;
            }
            st.distinct.extend(s.distinct);
            st.samples.extend(s.samples);
            if let Some(f) = r.failure {
                failures.push(f);
            }
            if let Some(h) = r.harness_error {
                harness_errors.push(h);
            }
        }
        st.nontrivial = st.distinct.len() as u64;
        st.samples.truncate(3);
        evaluations += st.evaluations;
        nontrivial += st.nontrivial;
        samples.extend(st.samples.into_iter().map(|c| json!({"part": part.name(), "case": c})));
        parts_json.insert(
            part.name().to_string(),
            json!({
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.nontrivial,
                "discarded": st.discarded,
                "labels": st.labels,
            }),
        );
        if !failures.is_empty() || !harness_errors.is_empty() {
            break;
        }
    }
    samples.truncate(12);
    let known = load_known(prop.id);
    let mut violations = 0;
    for f in failures.iter() {
        if let Some(k) = known.iter().find(|k| f.message.contains(k.as_str())) {
            let _ = writeln!(report, "KNOWN-FINDING: property={} {}", prop.id, k);
            continue;
        }
        violations += 1;
        let path = write_replay(env, prop.id, &f.part, violations, &f.case, &f.message, f.shrink_steps, &f.case_seed);
        let _ = writeln!(report, "# {} [{}]: {}", prop.id, f.part, f.message.replace('\n', "\n#   "));
        let _ = writeln!(report, "VIOLATION property={} replay={}", prop.id, path);
    }
    let wall = t0.elapsed().as_secs_f64();
    let evidence = json!({
        "property": prop.id,
        "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": prop.rule,
            "samples": samples,
            "parts": parts_json,
        },
        "assumptions": [
            "proptest's ChaCha generator seeded with VERIF_SEED; 8 shards with fixed numbers of cases",
            "reference formulas in /verif/harness/src/refsol.rs and the oracles of the property",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(&env.out);
    let _ = std::fs::write(
        env.out.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    );
    let _ = writeln!(
        report,
        "# {}: {} cases, {} distinct non-trivial, {:.1} s",
        prop.id, evaluations, nontrivial, wall
    );
    for h in harness_errors.iter() {
        let _ = writeln!(report, "# HARNESS ERROR: {h}");
    }
    if violations > 0 {
        1
    } else if !harness_errors.is_empty() {
        2
    } else {
        0
    }
}

/// Known findings (not fixed in corries) of a property: the signature after "property=<id> "
fn load_known(id: &str) -> Vec<String> {
    let Ok(path) = std::env::var("VERIF_KNOWN") else { return vec![] };
    let Ok(txt) = std::fs::read_to_string(path) else { return vec![] };
    txt.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} ")).map(|s| s.trim().to_string()))
        .filter(|s| !s.is_empty())
        .collect()
}
