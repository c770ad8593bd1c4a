//! Runs the laws of one property.
//!
//! A law is a generator and a test with an explicit oracle. A run shards every
//! law over a fixed number of seeded generators, so that the set of cases depends
//! only on VERIF_SEED and VERIF_TIER. A failing case is shrunk by proptest and
//! then minimized on its JSON form, and written to a replay file that does not
//! need the generator any more.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Instant;

pub type Outcome = Result<(), String>;

pub const SHARDS: usize = 8;
const STACK: usize = 64 << 20;

pub trait Case: Clone + Debug + Serialize + DeserializeOwned + Hash + Send + Sync + 'static {}
impl<T> Case for T where T: Clone + Debug + Serialize + DeserializeOwned + Hash + Send + Sync + 'static {}

/// What a generated case is: a label for the distribution and whether it counts as non-trivial.
pub struct Class {
    pub label: String,
    pub nontrivial: bool,
}

pub fn class(label: impl Into<String>, nontrivial: bool) -> Class {
    Class {
        label: label.into(),
        nontrivial,
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

struct Failure {
    case: Value,
    message: String,
    /// The case as it was generated, and how many cases its shard had evaluated by then
    first: Option<(Value, usize, usize)>,
    /// Cases that have to be evaluated before, when the library keeps some state
    history: Vec<Value>,
}

impl Failure {
    fn of(case: Value, message: String) -> Self {
        Failure { case, message, first: None, history: vec![] }
    }
}

struct LawRun {
    stats: Stats,
    failure: Option<Failure>,
}

trait DynLaw: Sync {
    fn name(&self) -> &str;
    fn rule(&self) -> &str;
    fn exhaustive(&self) -> bool;
    fn run(&self, ctx: &Ctx) -> LawRun;
    /// Evaluates the cases of the history and then the case, in one new thread.
    fn replay(&self, history: &[Value], case: &Value) -> Result<Outcome, String>;
    /// The first `n` cases of a shard.
    fn cases(&self, ctx: &Ctx, shard: usize, n: usize) -> Vec<Value>;
    fn set_budget(&mut self, n: u32);
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub property: &'static str,
    pub thorough: bool,
    pub seed: u64,
    trace: Option<PathBuf>,
    found: Option<PathBuf>,
}

pub enum Source<C> {
    /// Randomly generated: strategy and number of cases at each tier
    Gen {
        strategy: fn() -> BoxedStrategy<C>,
        quick: u32,
        thorough: u32,
    },
    /// Every case of a finite list (the argument says whether the run is thorough)
    Enum(fn(bool) -> Vec<C>),
}

pub struct Law<C> {
    pub name: &'static str,
    /// What is generated, and what makes a case non-trivial
    pub rule: &'static str,
    pub source: Source<C>,
    pub classify: fn(&C) -> Class,
    /// Domain of the law; a case outside it (which only minimization can make) passes
    pub valid: fn(&C) -> bool,
    pub test: fn(&C) -> Outcome,
    /// Bound on the evaluations spent on making a failing case smaller
    pub budget: u32,
}

pub const BUDGET: u32 = 2100;
/// Bound on the time spent on finding the cases that a failure depends on
const CONFIRM_S: u64 = 90;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn guarded<C>(test: fn(&C) -> Outcome, c: &C) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| test(c))) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panic: {}",
            LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "unknown".into())
        )),
    }
}

fn hash_of<C: Hash>(c: &C) -> u64 {
    let mut h = DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

fn seed_bytes(ctx: &Ctx, law: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let mut h = DefaultHasher::new();
        (ctx.seed, ctx.property, law, shard as u64, i as u64, ctx.thorough).hash(&mut h);
        chunk.copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

impl<C: Case> Law<C> {
    fn record(&self, st: &mut Stats, c: &C) {
        st.evaluations += 1;
        let cl = (self.classify)(c);
        *st.labels.entry(cl.label).or_default() += 1;
        if cl.nontrivial && st.nontrivial.insert(hash_of(c)) && st.samples.len() < 2 {
            if let Ok(v) = serde_json::to_value(c) {
                if v.to_string().len() < 1500 {
                    st.samples.push(v);
                }
            }
        }
    }

    fn trace(&self, ctx: &Ctx, shard: usize, c: &C) {
        if let Some(dir) = &ctx.trace {
            let v = replay_value(ctx.property, self.name, serde_json::to_value(c).unwrap(), "");
            let _ = std::fs::write(
                dir.join(format!("{}-{}.json", self.name, shard)),
                v.to_string(),
            );
        }
    }

    fn untrace(&self, ctx: &Ctx, shard: usize) {
        if let Some(dir) = &ctx.trace {
            let _ = std::fs::remove_file(dir.join(format!("{}-{}.json", self.name, shard)));
        }
    }

    /// Leaves the first failing case for the parent, in case the minimization does not end.
    fn note(&self, ctx: &Ctx, c: &C, message: &str, stop: &AtomicBool) {
        if !stop.swap(true, Ordering::Relaxed) {
            if let Some(path) = &ctx.found {
                let v = replay_value(ctx.property, self.name, serde_json::to_value(c).unwrap(), message);
                let _ = std::fs::write(path, v.to_string());
            }
        }
    }

    fn runner(&self, ctx: &Ctx, shard: usize, n: u32) -> TestRunner {
        let cases = n / SHARDS as u32 + u32::from((shard as u32) < n % SHARDS as u32);
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: self.budget / 4,
            max_shrink_time: 0,
            max_global_rejects: 0,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx, self.name, shard));
        TestRunner::new_with_rng(cfg, rng)
    }

    fn shard(&self, ctx: &Ctx, shard: usize, stop: &AtomicBool) -> LawRun {
        let stats = RefCell::new(Stats::default());
        let failed: RefCell<Option<(C, String)>> = RefCell::new(None);
        let first: RefCell<Option<Value>> = RefCell::new(None);
        match &self.source {
            Source::Gen {
                strategy,
                quick,
                thorough,
            } => {
                let n = if ctx.thorough { *thorough } else { *quick };
                let mut runner = self.runner(ctx, shard, n);
                let failing = RefCell::new(false);
                let r = runner.run(&strategy(), |c| {
                    if !*failing.borrow() {
                        if stop.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        self.record(&mut stats.borrow_mut(), &c);
                    }
                    if !(self.valid)(&c) {
                        if !*failing.borrow() {
                            harness_error(&format!("law {}: the generator left the domain", self.name));
                        }
                        return Ok(());
                    }
                    self.trace(ctx, shard, &c);
                    match guarded(self.test, &c) {
                        Ok(()) => Ok(()),
                        Err(m) => {
                            *failing.borrow_mut() = true;
                            first.borrow_mut().get_or_insert_with(|| serde_json::to_value(&c).unwrap());
                            self.note(ctx, &c, &m, stop);
                            Err(TestCaseError::fail(m))
                        }
                    }
                });
                match r {
                    Ok(()) => {}
                    Err(TestError::Fail(reason, c)) => {
                        *failed.borrow_mut() = Some((c, reason.message().to_string()));
                    }
                    Err(TestError::Abort(r)) => harness_error(&format!("generator gave up: {r}")),
                }
            }
            Source::Enum(list) => {
                for (k, c) in list(ctx.thorough).into_iter().enumerate() {
                    if k % SHARDS != shard {
                        continue;
                    }
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    self.record(&mut stats.borrow_mut(), &c);
                    self.trace(ctx, shard, &c);
                    if let Err(m) = guarded(self.test, &c) {
                        self.note(ctx, &c, &m, stop);
                        *failed.borrow_mut() = Some((c, m));
                        break;
                    }
                }
            }
        }
        let failure = failed.into_inner().map(|(c, m)| {
            let v = serde_json::to_value(&c).unwrap();
            let first = first.into_inner().unwrap_or_else(|| v.clone());
            let case = crate::jshrink::minimize(v, (self.budget / 4 * 3) as usize, |v| match serde_json::from_value::<C>(v.clone()) {
                Ok(c) => (self.valid)(&c) && guarded(self.test, &c).is_err(),
                Err(_) => false,
            });
            let message = match serde_json::from_value::<C>(case.clone()) {
                Ok(c) => guarded(self.test, &c).err().unwrap_or(m),
                Err(_) => m,
            };
            let first = Some((first, shard, stats.borrow().evaluations as usize));
            Failure { case, message, first, history: vec![] }
        });
        self.untrace(ctx, shard);
        LawRun {
            stats: stats.into_inner(),
            failure,
        }
    }
}

/// An error of the check itself: neither success nor a violation.
pub fn harness_error(m: &str) -> ! {
    println!("CHECK-ERROR: {m}");
    let _ = std::io::stdout().flush();
    std::process::exit(3);
}

impl<C: Case> DynLaw for Law<C> {
    fn name(&self) -> &str {
        self.name
    }
    fn rule(&self) -> &str {
        self.rule
    }
    fn exhaustive(&self) -> bool {
        matches!(self.source, Source::Enum(_))
    }
    fn run(&self, ctx: &Ctx) -> LawRun {
        let stop = AtomicBool::new(false);
        let runs: Vec<LawRun> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|k| {
                    let stop = &stop;
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || {
                            match catch_unwind(AssertUnwindSafe(|| self.shard(ctx, k, stop))) {
                                Ok(r) => r,
                                Err(_) => harness_error(&format!(
                                    "panic in the harness, law {}: {}",
                                    self.name,
                                    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
                                )),
                            }
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut out = LawRun {
            stats: Stats::default(),
            failure: None,
        };
        for r in runs {
            out.stats.evaluations += r.stats.evaluations;
            out.stats.nontrivial.extend(r.stats.nontrivial);
            for (k, v) in r.stats.labels {
                *out.stats.labels.entry(k).or_default() += v;
            }
            if out.stats.samples.len() < 2 {
                out.stats.samples.extend(r.stats.samples.into_iter().take(1));
            }
            if out.failure.is_none() {
                out.failure = r.failure;
            } else if let (Some(a), Some(b)) = (&out.failure, &r.failure) {
                if b.case.to_string().len() < a.case.to_string().len() {
                    out.failure = r.failure;
                }
            }
        }
        out
    }
    fn set_budget(&mut self, n: u32) {
        self.budget = n;
    }
    fn replay(&self, history: &[Value], case: &Value) -> Result<Outcome, String> {
        let read = |v: &Value| {
            let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            if (self.valid)(&c) {
                Ok(c)
            } else {
                Err("the case is outside the domain of the law".to_string())
            }
        };
        let before: Vec<C> = history.iter().map(read).collect::<Result<_, _>>()?;
        let c = read(case)?;
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || {
                    for b in &before {
                        let _ = guarded(self.test, b);
                    }
                    Ok(guarded(self.test, &c))
                })
                .unwrap()
                .join()
                .unwrap()
        })
    }
    fn cases(&self, ctx: &Ctx, shard: usize, n: usize) -> Vec<Value> {
        match &self.source {
            Source::Gen { strategy, .. } => {
                let mut runner = self.runner(ctx, shard, 0);
                let s = strategy();
                (0..n)
                    .map_while(|_| {
                        // proptest derives a new generator for every case
                        let rng = runner.new_rng();
                        runner = TestRunner::new_with_rng(runner.config().clone(), rng);
                        s.new_tree(&mut runner).ok()
                    })
                    .map(|t| serde_json::to_value(t.current()).unwrap())
                    .collect()
            }
            Source::Enum(list) => list(ctx.thorough)
                .into_iter()
                .skip(shard)
                .step_by(SHARDS)
                .take(n)
                .map(|c| serde_json::to_value(c).unwrap())
                .collect(),
        }
    }
}

fn history_of(v: &Value) -> &[Value] {
    v["history"].as_array().map(|h| h.as_slice()).unwrap_or(&[])
}

fn replay_value(property: &str, law: &str, case: Value, message: &str) -> Value {
    json!({"property": property, "law": law, "case": case, "message": message})
}

pub struct Check {
    property: &'static str,
    laws: Vec<Box<dyn DynLaw>>,
    assumptions: Vec<&'static str>,
}

impl Check {
    pub fn new(property: &'static str) -> Self {
        Check {
            property,
            laws: vec![],
            assumptions: vec![],
        }
    }

    pub fn assume(mut self, a: &'static str) -> Self {
        self.assumptions.push(a);
        self
    }

    pub fn add<C: Case>(mut self, law: Law<C>) -> Self {
        self.laws.push(Box::new(law));
        self
    }

    /// Spends less on making failing cases of the last law smaller.
    pub fn budget(mut self, n: u32) -> Self {
        self.laws.last_mut().unwrap().set_budget(n);
        self
    }

    /// A law over generated cases, with the whole type as its domain.
    #[allow(clippy::too_many_arguments)]
    pub fn law<C: Case>(
        self,
        name: &'static str,
        rule: &'static str,
        quick: u32,
        thorough: u32,
        strategy: fn() -> BoxedStrategy<C>,
        classify: fn(&C) -> Class,
        test: fn(&C) -> Outcome,
    ) -> Self {
        self.add(Law {
            name,
            rule,
            source: Source::Gen {
                strategy,
                quick,
                thorough,
            },
            classify,
            valid: |_| true,
            test,
            budget: BUDGET,
        })
    }

    pub fn law_on<C: Case>(
        self,
        name: &'static str,
        rule: &'static str,
        n: (u32, u32),
        strategy: fn() -> BoxedStrategy<C>,
        classify: fn(&C) -> Class,
        valid: fn(&C) -> bool,
        test: fn(&C) -> Outcome,
    ) -> Self {
        self.add(Law {
            name,
            rule,
            source: Source::Gen {
                strategy,
                quick: n.0,
                thorough: n.1,
            },
            classify,
            valid,
            test,
            budget: BUDGET,
        })
    }

    /// A law over every case of a finite list.
    pub fn each<C: Case>(
        self,
        name: &'static str,
        rule: &'static str,
        list: fn(bool) -> Vec<C>,
        classify: fn(&C) -> Class,
        test: fn(&C) -> Outcome,
    ) -> Self {
        self.add(Law {
            name,
            rule,
            source: Source::Enum(list),
            classify,
            valid: |_| true,
            test,
            budget: BUDGET,
        })
    }

    /// Entry point of a check binary.
    pub fn main(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info
                .location()
                .map(|l| format!(" at {}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
        }));
        if args.len() == 3 && args[1] == "--replay" {
            self.replay_main(Path::new(&args[2]));
        }
        if std::env::var_os("VP_CHILD").is_some() {
            self.child()
        } else {
            self.parent()
        }
    }

    fn replay_main(&self, path: &Path) -> ! {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| harness_error(&e.to_string()));
        let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| harness_error(&e.to_string()));
        let law = v["law"].as_str().unwrap_or("");
        let r = self.replay_one(law, history_of(&v), &v["case"]);
        crate::rustcx::cleanup();
        match r {
            Err(e) => harness_error(&e),
            Ok(Ok(())) => {
                println!("replay passes: property={} law={law}", self.property);
                std::process::exit(0)
            }
            Ok(Err(m)) => {
                println!("law {law}: {m}");
                println!("VIOLATION property={} replay={}", self.property, path.display());
                std::process::exit(1)
            }
        }
    }

    fn replay_one(&self, law: &str, history: &[Value], case: &Value) -> Result<Outcome, String> {
        let l = self
            .laws
            .iter()
            .find(|l| l.name() == law)
            .ok_or_else(|| format!("no law {law}"))?;
        l.replay(history, case)
    }

    fn root() -> PathBuf {
        PathBuf::from(std::env::var("VP_ROOT").unwrap_or_else(|_| "/verif".into()))
    }

    fn violation(&self, law: &str, f: &Failure) -> ! {
        let dir = Self::root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.property, law));
        let mut v = replay_value(self.property, law, f.case.clone(), &f.message);
        if !f.history.is_empty() {
            v["history"] = Value::Array(f.history.clone());
        }
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n")
            .unwrap_or_else(|e| harness_error(&e.to_string()));
        let mut m = f.message.clone();
        if m.len() > 2000 {
            m.truncate((0..=2000).rev().find(|i| m.is_char_boundary(*i)).unwrap());
            m.push_str("...");
        }
        let mut c = f.case.to_string();
        if c.len() > 1500 {
            c.truncate((0..=1500).rev().find(|i| c.is_char_boundary(*i)).unwrap());
            c.push_str("...");
        }
        println!("law {law}: {m}");
        if !f.history.is_empty() {
            println!("after {} other cases, which are in the replay file", f.history.len());
        }
        println!("case: {c}");
        println!("VIOLATION property={} replay={}", self.property, path.display());
        let _ = std::io::stdout().flush();
        std::process::exit(1)
    }

    /// Checks that a failing case fails in a process of its own. When it does not, the library
    /// keeps some state, and the cases evaluated before that are needed become part of the replay.
    fn confirm(&self, ctx: &Ctx, law: &dyn DynLaw, f: &mut Failure) {
        let Ok(exe) = std::env::current_exe() else {
            return;
        };
        let path = Self::root().join("target").join(format!("confirm-{}.json", self.property));
        let t0 = Instant::now();
        let fails = |history: &[Value], case: &Value| {
            let mut v = replay_value(self.property, law.name(), case.clone(), "");
            v["history"] = Value::Array(history.to_vec());
            if t0.elapsed().as_secs() > CONFIRM_S || std::fs::write(&path, v.to_string()).is_err() {
                return false;
            }
            let left = CONFIRM_S + 60;
            let end = std::process::Command::new(&exe)
                .args(["--replay", path.to_str().unwrap()])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()
                .map(|ch| wait(ch, left, t0));
            matches!(end, Ok(End::Code(1) | End::Signal))
        };
        if !fails(&[], &f.case) {
            if let Some((first, shard, n)) = f.first.clone() {
                let mut history = law.cases(ctx, shard, n);
                history.pop();
                let mut len = 0;
                let found = loop {
                    let from = history.len() - len.min(history.len());
                    if fails(&history[from..], &first) {
                        history.drain(..from);
                        break true;
                    }
                    if from == 0 || t0.elapsed().as_secs() > CONFIRM_S {
                        break false;
                    }
                    len = (len * 2).max(1);
                };
                if found {
                    f.case = first;
                    f.history = history;
                    let mut chunk = f.history.len().div_ceil(2);
                    while chunk > 0 && !f.history.is_empty() {
                        let mut i = 0;
                        while i < f.history.len() {
                            let mut h = f.history.clone();
                            h.drain(i..(i + chunk).min(h.len()));
                            if fails(&h, &f.case) {
                                f.history = h;
                            } else {
                                i += chunk;
                            }
                        }
                        chunk = if chunk == 1 { 0 } else { chunk.div_ceil(2) };
                    }
                    f.case = crate::jshrink::minimize(f.case.clone(), 60, |c| fails(&f.history, c));
                    let whole = Value::Array(f.history.clone());
                    if let Value::Array(h) = crate::jshrink::minimize(whole, 60, |h| match h {
                        Value::Array(h) => fails(h, &f.case),
                        _ => false,
                    }) {
                        f.history = h;
                    }
                } else {
                    f.message.push_str(" (the case passes in a process of its own: the outcome depends on what ran before)");
                }
            }
        }
        let _ = std::fs::remove_file(&path);
    }

    fn child(&self) -> ! {
        let t0 = Instant::now();
        let ctx = Ctx {
            property: self.property,
            thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.trim().parse().ok())
                .unwrap_or(1),
            trace: std::env::var_os("VP_TRACE").map(PathBuf::from),
            found: std::env::var_os("VP_FOUND").map(PathBuf::from),
        };
        let mut evaluations = 0;
        let mut nontrivial = 0;
        let mut laws = serde_json::Map::new();
        let mut samples = vec![];
        let mut rules = vec![];
        let mut found: Option<(String, Failure)> = None;

        // Inputs that failed in the past come first
        let mut regressions = 0u64;
        let mut files: Vec<_> = std::fs::read_dir(Self::root().join("regress"))
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for p in files {
            let Ok(text) = std::fs::read_to_string(&p) else {
                continue;
            };
            let v: Value = match serde_json::from_str(&text) {
                Ok(v) => v,
                Err(e) => harness_error(&format!("{}: {e}", p.display())),
            };
            if v["property"] != self.property {
                continue;
            }
            let law = v["law"].as_str().unwrap_or("").to_string();
            regressions += 1;
            let traced = ctx.trace.as_ref().map(|dir| dir.join("regression.json"));
            if let Some(f) = &traced {
                let _ = std::fs::write(f, &text);
            }
            match self.replay_one(&law, history_of(&v), &v["case"]) {
                Err(e) => harness_error(&format!("{}: {e}", p.display())),
                Ok(Ok(())) => {}
                Ok(Err(message)) => {
                    found = Some((law, Failure::of(v["case"].clone(), message)));
                    break;
                }
            }
            if let Some(f) = &traced {
                let _ = std::fs::remove_file(f);
            }
        }

        if found.is_none() {
            for l in &self.laws {
                let t = Instant::now();
                let r = l.run(&ctx);
                evaluations += r.stats.evaluations;
                nontrivial += r.stats.nontrivial.len() as u64;
                rules.push(format!("{}: {}", l.name(), l.rule()));
                let mut labels: Vec<(String, u64)> = r.stats.labels.into_iter().collect();
                labels.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));
                let total_labels = labels.len();
                labels.truncate(40);
                laws.insert(
                    l.name().to_string(),
                    json!({
                        "evaluations": r.stats.evaluations,
                        "distinct_nontrivial": r.stats.nontrivial.len(),
                        "enumerated": l.exhaustive(),
                        "label_kinds": total_labels,
                        "labels": labels.into_iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>(),
                        "wall_s": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
                    }),
                );
                if samples.len() < 12 {
                    for s in r.stats.samples {
                        samples.push(json!({"law": l.name(), "case": s}));
                    }
                }
                if let Some(mut f) = r.failure {
                    self.confirm(&ctx, l.as_ref(), &mut f);
                    found = Some((l.name().to_string(), f));
                    break;
                }
            }
        }

        let ev = json!({
            "property": self.property,
            "tier": if ctx.thorough { "thorough" } else { "quick" },
            "seed": ctx.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": nontrivial,
                "rule": rules.join("; "),
                "samples": samples,
                "regression_inputs_replayed": regressions,
                "laws": laws,
            },
            "assumptions": self.assumptions,
            "wall_s": (t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": u64::from(found.is_some()),
        });
        let dir = Self::root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .unwrap_or_else(|e| harness_error(&e.to_string()));
        crate::rustcx::cleanup();
        if let Some((law, f)) = found {
            self.violation(&law, &f);
        }
        println!(
            "OK property={} evaluations={evaluations} distinct_nontrivial={nontrivial} wall={:.1}s",
            self.property,
            t0.elapsed().as_secs_f64()
        );
        std::process::exit(0)
    }

    /// When the child ended before it could report a case that had failed, reports that case as it was.
    fn early(&self, found: &Path, t0: Instant) {
        let Some(v) = std::fs::read_to_string(found).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else {
            return;
        };
        let _ = std::fs::remove_file(found);
        let law = v["law"].as_str().unwrap_or("").to_string();
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let ev = json!({
            "property": self.property,
            "tier": if thorough { "thorough" } else { "quick" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1),
            "level": "exploration",
            "coverage": {
                "evaluations": 1,
                "distinct_nontrivial": 1,
                "rule": "only the case that failed; the run ended while it was being minimized and the other counts are lost",
                "samples": [{"law": law, "case": v["case"]}],
            },
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": 1,
        });
        let _ = std::fs::write(
            Self::root().join("evidence").join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        );
        let failure = Failure::of(v["case"].clone(), v["message"].as_str().unwrap_or("").to_string());
        self.violation(&law, &failure);
    }

    /// Runs the child with a watchdog. A child that was killed by a signal is run again with
    /// tracing, and the input that kills it is a violation (a crash on a valid input) once it
    /// is confirmed; running out of time or memory is an error of the check, unless a failing case
    /// was found before.
    fn parent(&self) -> ! {
        let limit: u64 = std::env::var("VP_LIMIT_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(780);
        let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&e.to_string()));
        let t0 = Instant::now();
        let found = Self::root().join("target").join(format!("found-{}.json", self.property));
        let _ = std::fs::remove_file(&found);
        let child = [("VP_CHILD", "1".to_string()), ("VP_FOUND", found.to_str().unwrap().to_string())];
        let (end, err) = spawn(&exe, &[], &child, limit, t0);
        eprint!("{err}");
        if let End::Code(c) = end {
            let _ = std::fs::remove_file(&found);
            std::process::exit(c);
        }
        self.early(&found, t0);
        match end {
            End::Time => harness_error("time limit reached, the run is inconclusive"),
            End::Killed => harness_error("the check was killed (out of memory?)"),
            _ => {}
        }
        if err.contains("memory allocation of") {
            harness_error("out of memory");
        }
        let dir = Self::root().join("target").join(format!("trace-{}", self.property));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| harness_error(&e.to_string()));
        let [a, b] = child;
        let (end, _) = spawn(&exe, &[], &[a, b, ("VP_TRACE", dir.to_str().unwrap().into())], limit, t0);
        match end {
            End::Code(c) => std::process::exit(if c == 0 { 3 } else { c }),
            End::Time => harness_error("time limit reached, the run is inconclusive"),
            End::Killed => harness_error("the check was killed (out of memory?)"),
            End::Signal => {}
        }
        let mut files: Vec<_> = std::fs::read_dir(&dir)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            let (end, err) = spawn(&exe, &["--replay", f.to_str().unwrap()], &[], limit, t0);
            if end == End::Signal && !err.contains("memory allocation of") {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap())
                    .unwrap_or_else(|e| harness_error(&e.to_string()));
                let law = v["law"].as_str().unwrap_or("").to_string();
                // a smaller case that kills a process as well
                let smaller = dir.join("smaller.json");
                let case = crate::jshrink::minimize(v["case"].clone(), 300, |c| {
                    let r = replay_value(self.property, &law, c.clone(), "");
                    std::fs::write(&smaller, r.to_string()).is_ok() && {
                        let (end, err) = spawn(&exe, &["--replay", smaller.to_str().unwrap()], &[], limit, t0);
                        end == End::Signal && !err.contains("memory allocation of")
                    }
                });
                let failure = Failure::of(case, format!("the process was killed: {}", err.trim()));
                let _ = std::fs::remove_dir_all(&dir);
                self.violation(&law, &failure);
            }
        }
        harness_error("the check died and the input that did it could not be confirmed");
    }
}

#[derive(PartialEq)]
enum End {
    Code(i32),
    Signal,
    Killed,
    Time,
}

/// How the process ended and its stderr.
fn spawn(
    exe: &Path,
    args: &[&str],
    env: &[(&str, String)],
    limit: u64,
    t0: Instant,
) -> (End, String) {
    let mut cmd = std::process::Command::new(exe);
    cmd.args(args).stderr(std::process::Stdio::piped());
    if !args.is_empty() {
        // what a replay prints is not part of the output of the check
        cmd.stdout(std::process::Stdio::null());
    }
    for (k, v) in env {
        cmd.env(k, v);
    }
    let mut ch = cmd.spawn().unwrap_or_else(|e| harness_error(&e.to_string()));
    let mut pipe = ch.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut pipe, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    match wait(ch, limit, t0) {
        End::Time => (End::Time, String::new()),
        end => (end, reader.join().unwrap_or_default()),
    }
}

fn wait(mut ch: std::process::Child, limit: u64, t0: Instant) -> End {
    use std::os::unix::process::ExitStatusExt;
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                return match (st.code(), st.signal()) {
                    (Some(c), _) => End::Code(c),
                    (_, Some(9)) => End::Killed,
                    _ => End::Signal,
                };
            }
            Ok(None) => {
                if t0.elapsed().as_secs() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return End::Time;
                }
                std::thread::sleep(std::time::Duration::from_millis(5));
            }
            Err(e) => harness_error(&e.to_string()),
        }
    }
}

pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}

/// `Err` with both sides written out unless they are equal.
pub fn same<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> Outcome {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

pub fn ensure(ok: bool, what: impl FnOnce() -> String) -> Outcome {
    if ok {
        Ok(())
    } else {
        Err(what())
    }
}
