//! Runner shared by all checks: proptest with a fixed seed, sharding, shrinking to a
//! replay file, evidence, known findings and regression cases.

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub use proptest;
pub use serde;
pub use serde_json;

/// What a case that held was.
#[derive(Default, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}

impl Info {
    pub fn trivial() -> Self {
        Self::default()
    }
    pub fn nontrivial() -> Self {
        Self { nontrivial: true, labels: vec![] }
    }
    pub fn when(nontrivial: bool) -> Self {
        Self { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn label_if(self, c: bool, l: &str) -> Self {
        if c { self.label(l) } else { self }
    }
}

/// A case that broke the property. `sig` identifies the root cause (known findings are
/// listed by it), `msg` explains.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

pub type Outcome = Result<Info, Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::Fail::new($sig, format!($($arg)*))); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::Fail::new($sig, format!("{}\n  got:      {:?}\n  expected: {:?}", format!($($arg)*), a, b))); }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static SHARD: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// The case a shard is running, for the watchdog.
struct Slot {
    since: Instant,
    case: Box<dyn Fn() -> Value + Send>,
}
const MAX_SHARDS: usize = 16;
static SLOTS: [Mutex<Option<Slot>>; MAX_SHARDS] = [const { Mutex::new(None) }; MAX_SHARDS];
/// A case that takes longer than this on its own is a hang: all take far less than a second,
/// or bound their subprocesses themselves.
const HANG: u64 = 60;

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

fn candidates() -> PathBuf {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    root.join("evidence").join("replay")
}

/// Runs one case: panics become failures, a crash or a hang leaves the case behind.
fn run_case<V>(id: &str, name: &str, trace: bool, v: &V, f: &dyn Fn(&V) -> Outcome) -> Outcome
where
    V: Serialize + Clone + Send + 'static,
{
    let shard = SHARD.get();
    let (c, i, n) = (v.clone(), id.to_string(), name.to_string());
    let case = move || json!({"property": i, "prop": n, "case": c});
    if trace {
        let _ = std::fs::write(candidates().join(format!("{id}-candidate-{shard}.json")), case().to_string());
    }
    *lock(&SLOTS[shard]) = Some(Slot { since: Instant::now(), case: Box::new(case) });
    let r = match guard(|| f(v)) {
        Ok(o) => o,
        Err(m) => {
            let site = m.split(": ").next().unwrap_or("").replace("panicked at ", "");
            Err(Fail::new(format!("panic@{site}"), m))
        }
    };
    *lock(&SLOTS[shard]) = None;
    r
}

/// The check runs in a child, so that a crash (stack overflow, abort) or a hang of the code
/// under test is reported with the case that causes it, and not as a crash of the check.
fn supervise(id: &str) {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    if std::env::var_os("VP_CHILD").is_some() || std::env::args().any(|a| a == "--replay") {
        return;
    }
    let exe = std::env::current_exe().unwrap();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let dir = candidates();
    let _ = std::fs::create_dir_all(&dir);
    let files: Vec<PathBuf> = (0..MAX_SHARDS).map(|i| dir.join(format!("{id}-candidate-{i}.json"))).collect();
    files.iter().for_each(|f| drop(std::fs::remove_file(f)));
    let run = |mode: &str| Command::new(&exe).args(&args).env("VP_CHILD", mode).status().expect("child");
    let mut st = run("1");
    match st.code() {
        Some(4) => {}
        Some(c) => std::process::exit(c),
        None => {
            eprintln!("the check died of signal {:?}: looking for the case", st.signal());
            st = run("trace");
            if let Some(c) = st.code().filter(|c| *c != 4) {
                std::process::exit(if c == 0 { 3 } else { c });
            }
        }
    }
    // Which case, on its own?
    for f in files.iter().filter(|f| f.exists()) {
        let mut ch = Command::new(&exe).args(&args).arg("--replay").arg(f).env("VP_CHILD", "1").spawn().expect("child");
        let t = Instant::now();
        let what = loop {
            match ch.try_wait().expect("wait") {
                Some(s) => break s.signal().map(|n| format!("dies of signal {n}")),
                None if t.elapsed().as_secs() > HANG => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break Some(format!("does not finish in {HANG} s"));
                }
                None => std::thread::sleep(std::time::Duration::from_millis(50)),
            }
        };
        if let Some(what) = what {
            let keep = dir.join(format!("{id}-crash.json"));
            let txt = std::fs::read_to_string(f).unwrap_or_default();
            let _ = std::fs::write(&keep, &txt);
            files.iter().for_each(|f| drop(std::fs::remove_file(f)));
            println!("the code under test {what} on the case {}", txt.chars().take(2000).collect::<String>());
            let ev = json!({
                "property": id,
                "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
                "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1),
                "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at the case that crashes or hangs", "samples": [serde_json::from_str::<Value>(&txt).unwrap_or_default()]},
                "assumptions": [], "wall_s": t.elapsed().as_secs_f64(), "violations": 1,
            });
            let root = dir.parent().unwrap();
            let _ = std::fs::write(root.join(format!("{id}.json")), ev.to_string());
            println!("VIOLATION property={id} replay={}", keep.display());
            std::process::exit(1);
        }
    }
    eprintln!("ERROR: the check crashed or hung and no case reproduces it");
    std::process::exit(3);
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().take());
    GUARDED.set(GUARDED.get() + 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.set(GUARDED.get() - 1);
    match r {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
                e.downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "panic in another thread".into())
            });
            Err(m)
        }
    }
}

#[derive(Clone, Debug)]
struct Known {
    property: String,
    sig: String,
    what: String,
}

pub struct Check {
    id: String,
    root: PathBuf,
    tier: String,
    seed: u64,
    level: &'static str,
    replay: Option<Value>,
    replay_ran: bool,
    known: Vec<Known>,
    known_seen: BTreeMap<String, u64>,
    evaluations: u64,
    nontrivial: HashSet<u64>,
    rules: Vec<String>,
    samples: Vec<Value>,
    labels: BTreeMap<String, u64>,
    per_prop: BTreeMap<String, Value>,
    violations: Vec<(String, PathBuf, String)>,
    assumptions: Vec<String>,
    start: Instant,
    shards: usize,
    scale: f64,
}


#[derive(Default)]
struct Shard {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<Value>,
    labels: BTreeMap<String, u64>,
    known_seen: BTreeMap<String, u64>,
}

impl Check {
    /// `args`: what follows the check's own arguments (`--replay FILE`).
    pub fn new(id: &str) -> Self {
        supervise(id);
        std::panic::set_hook(Box::new(|info| {
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit("build/repo/").next().unwrap_or(f);
                    format!("{f}:{}", l.line())
                })
                .unwrap_or_default();
            if GUARDED.get() == 0 {
                eprintln!("panicked at {loc}: {m}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {m}")));
        }));
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        }
        .to_string();
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let args: Vec<String> = std::env::args().collect();
        let replay = args.iter().position(|a| a == "--replay").map(|i| {
            let f = &args[i + 1];
            serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay JSON")
        });
        let known = std::fs::read_to_string(root.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // finding: property=C22 sig=<sig> | <what fails>
                let r = l.strip_prefix("finding: property=")?;
                let (property, r) = r.split_once(" sig=")?;
                let (sig, what) = r.split_once(" | ")?;
                Some(Known { property: property.into(), sig: sig.trim().into(), what: what.trim().into() })
            })
            .filter(|k| k.property == id)
            .collect();
        let scale = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        // Watchdog: leaves the case behind for the supervisor.
        let me = id.to_string();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(std::time::Duration::from_secs(5));
                for (i, slot) in SLOTS.iter().enumerate() {
                    let slot = lock(slot);
                    if let Some(s) = slot.as_ref()
                        && s.since.elapsed().as_secs() > HANG
                    {
                        let _ = std::fs::write(candidates().join(format!("{me}-candidate-{i}.json")), (s.case)().to_string());
                        eprintln!("a case takes more than {HANG} s");
                        std::process::exit(4);
                    }
                }
            }
        });
        Check {
            id: id.into(),
            root,
            tier,
            seed,
            level: "exploration",
            replay,
            replay_ran: false,
            known,
            known_seen: BTreeMap::new(),
            evaluations: 0,
            nontrivial: HashSet::new(),
            rules: vec![],
            samples: vec![],
            labels: BTreeMap::new(),
            per_prop: BTreeMap::new(),
            violations: vec![],
            assumptions: vec![],
            start: Instant::now(),
            shards: 8,
            scale,
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    pub fn shards(&mut self, n: usize) -> &mut Self {
        self.shards = n;
        self
    }

    pub fn is_thorough(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn pick(&self, quick: u32, thorough: u32) -> u32 {
        let n = if self.is_thorough() { thorough } else { quick };
        ((n as f64 * self.scale) as u32).max(1)
    }

    fn regress_dir(&self) -> PathBuf {
        self.root.join("regress").join(&self.id)
    }

    /// One generated property; `mk` makes its generator (once per shard). `rule` says how
    /// cases are made and which are non-trivial.
    pub fn prop<S, M, F>(&mut self, name: &str, rule: &str, quick: u32, thorough: u32, mk: M, f: F)
    where
        S: Strategy,
        M: Fn() -> S + Sync,
        S::Value: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
        F: Fn(&S::Value) -> Outcome + Sync,
    {
        let (me, trace) = (self.id.clone(), std::env::var("VP_CHILD").is_ok_and(|m| m == "trace"));
        let run = |v: &S::Value| -> Outcome { run_case(&me, name, trace, v, &f) };

        if let Some(r) = &self.replay {
            if r["prop"] == name {
                self.replay_ran = true;
                let v: S::Value = serde_json::from_value(r["case"].clone()).expect("case");
                match run(&v) {
                    Ok(i) => println!("replay: holds {i:?}"),
                    Err(e) => {
                        println!("replay: FAILS sig={}\n{}", e.sig, e.msg);
                        self.violations.push((name.into(), PathBuf::from("replayed"), e.msg));
                    }
                }
            }
            return;
        }

        self.rules.push(format!("{name}: {rule}"));
        let t0 = Instant::now();
        let known: HashSet<String> = self.known.iter().map(|k| k.sig.clone()).collect();

        // Saved cases first, without the library.
        let mut regress = 0u64;
        if let Ok(rd) = std::fs::read_dir(self.regress_dir()) {
            let mut files: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            files.sort();
            for p in files {
                let Ok(txt) = std::fs::read_to_string(&p) else { continue };
                let Ok(j) = serde_json::from_str::<Value>(&txt) else { continue };
                if j["prop"] != name {
                    continue;
                }
                let v: S::Value = match serde_json::from_value(j["case"].clone()) {
                    Ok(v) => v,
                    Err(e) => {
                        eprintln!("ERROR: {}: {e}", p.display());
                        std::process::exit(3);
                    }
                };
                regress += 1;
                match run(&v) {
                    Ok(_) => {}
                    Err(e) if known.contains(&e.sig) => {
                        *self.known_seen.entry(e.sig).or_default() += 1;
                    }
                    Err(e) => self.violations.push((name.into(), p.clone(), format!("sig={}\n{}", e.sig, e.msg))),
                }
            }
        }

        let total = self.pick(quick, thorough);
        let shards = self.shards.min(total as usize).clamp(1, MAX_SHARDS);
        let results: Mutex<Vec<(usize, Shard, Option<(S::Value, Fail)>)>> = Mutex::new(vec![]);
        let seed = self.seed;
        let id = self.id.clone();
        let one = |shard: usize| {
            SHARD.set(shard);
            let cases = total / shards as u32 + u32::from((shard as u32) < total % shards as u32);
            let mut h = DefaultHasher::new();
            (seed, &id, name, shard).hash(&mut h);
            let cfg = Config {
                cases,
                failure_persistence: None,
                rng_seed: RngSeed::Fixed(h.finish()),
                max_shrink_iters: 20_000,
                max_shrink_time: 60_000,
                max_global_rejects: 200_000,
                max_local_rejects: 200_000,
                ..Config::default()
            };
            let mut runner = TestRunner::new(cfg);
            let st = RefCell::new(Shard::default());
            let failed = std::cell::Cell::new(false);
            let sample_every = (cases / 4).max(1) as u64;
            let res = runner.run(&mk(), |v| {
                let r = run(&v);
                if failed.get() {
                    // shrinking: not counted
                    return match r {
                        Err(e) if !known.contains(&e.sig) => Err(TestCaseError::fail(e.msg)),
                        _ => Ok(()),
                    };
                }
                let mut st = st.borrow_mut();
                st.evaluations += 1;
                match r {
                    Ok(i) => {
                        for l in &i.labels {
                            *st.labels.entry(l.clone()).or_default() += 1;
                        }
                        if i.nontrivial {
                            let txt = format!("{v:?}");
                            let mut h = DefaultHasher::new();
                            (name, &txt).hash(&mut h);
                            let new = st.nontrivial.insert(h.finish());
                            let due = st.samples.len() as u64 * sample_every <= st.evaluations;
                            if new && due && st.samples.len() < 3 && txt.len() < 3000 {
                                let j = serde_json::to_value(&v).unwrap_or(Value::String(txt));
                                st.samples.push(j);
                            }
                        }
                        Ok(())
                    }
                    Err(e) if known.contains(&e.sig) => {
                        *st.known_seen.entry(e.sig).or_default() += 1;
                        Ok(())
                    }
                    Err(e) => {
                        failed.set(true);
                        Err(TestCaseError::fail(e.msg))
                    }
                }
            });
            let fail = match res {
                Ok(()) => None,
                Err(TestError::Fail(reason, v)) => {
                    let e = match run(&v) {
                        Err(e) => e,
                        Ok(_) => Fail::new("unreproduced", format!("shrunk case passed when rerun: {reason}")),
                    };
                    Some((v, e))
                }
                Err(TestError::Abort(r)) => {
                    eprintln!("ERROR: {name}: generator gave up: {r}");
                    std::process::exit(3);
                }
            };
            results.lock().unwrap().push((shard, st.into_inner(), fail));
        };
        if shards == 1 {
            one(0);
        } else {
            std::thread::scope(|s| {
                for i in 0..shards {
                    let one = &one;
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(s, move || one(i))
                        .unwrap();
                }
            });
        }
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut failure: Option<(S::Value, Fail)> = None;
        let (mut ev, mut nt) = (0, HashSet::new());
        let mut samples = 0;
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        for (_, st, f) in results {
            ev += st.evaluations;
            nt.extend(st.nontrivial);
            for (k, n) in st.labels {
                *labels.entry(k).or_default() += n;
            }
            for (k, n) in st.known_seen {
                *self.known_seen.entry(k).or_default() += n;
            }
            for s in st.samples {
                if samples < 3 {
                    samples += 1;
                    self.samples.push(json!({"prop": name, "case": s}));
                }
            }
            if let Some(f) = f {
                let better = match &failure {
                    None => true,
                    Some((v, _)) => format!("{:?}", f.0).len() < format!("{v:?}").len(),
                };
                if better {
                    failure = Some(f);
                }
            }
        }
        for (k, n) in &labels {
            *self.labels.entry(format!("{name}/{k}")).or_default() += n;
        }
        self.per_prop.insert(
            name.into(),
            json!({"evaluations": ev, "distinct_nontrivial": nt.len(), "saved_cases": regress, "wall_s": t0.elapsed().as_secs_f64()}),
        );
        self.evaluations += ev + regress;
        self.nontrivial.extend(nt);
        if let Some((v, e)) = failure {
            let dir = self.root.join("evidence").join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let j = json!({"property": self.id, "prop": name, "sig": e.sig, "msg": e.msg, "case": v, "seed": self.seed});
            let mut h = DefaultHasher::new();
            j.to_string().hash(&mut h);
            let p = dir.join(format!("{}-{:08x}.json", self.id, h.finish() as u32));
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
            self.violations.push((name.into(), p, format!("sig={}\n{}\ncase: {v:?}", e.sig, e.msg)));
        }
    }

    /// A check of a finite space: every element of `items` is one case.
    pub fn exhaustive<T, F>(&mut self, name: &str, rule: &str, items: Vec<T>, f: F)
    where
        T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
        F: Fn(&T) -> Outcome,
    {
        let (me, trace) = (self.id.clone(), std::env::var("VP_CHILD").is_ok_and(|m| m == "trace"));
        let run = |v: &T| -> Outcome { run_case(&me, name, trace, v, &f) };
        if let Some(r) = &self.replay {
            if r["prop"] == name {
                self.replay_ran = true;
                let v: T = serde_json::from_value(r["case"].clone()).expect("case");
                match run(&v) {
                    Ok(i) => println!("replay: holds {i:?}"),
                    Err(e) => {
                        println!("replay: FAILS sig={}\n{}", e.sig, e.msg);
                        self.violations.push((name.into(), PathBuf::from("replayed"), e.msg));
                    }
                }
            }
            return;
        }
        self.rules.push(format!("{name} (enumerated): {rule}"));
        let known: HashSet<String> = self.known.iter().map(|k| k.sig.clone()).collect();
        let mut nt = 0u64;
        let n = items.len() as u64;
        let mut reported = false;
        for v in items {
            match run(&v) {
                Ok(i) => {
                    for l in &i.labels {
                        *self.labels.entry(format!("{name}/{l}")).or_default() += 1;
                    }
                    if i.nontrivial {
                        let mut h = DefaultHasher::new();
                        (name, format!("{v:?}")).hash(&mut h);
                        if self.nontrivial.insert(h.finish()) {
                            nt += 1;
                            if nt <= 2 {
                                self.samples.push(json!({"prop": name, "case": serde_json::to_value(&v).unwrap()}));
                            }
                        }
                    }
                }
                Err(e) if known.contains(&e.sig) => {
                    *self.known_seen.entry(e.sig).or_default() += 1;
                }
                Err(e) if !reported => {
                    reported = true;
                    let dir = self.root.join("evidence").join("replay");
                    let _ = std::fs::create_dir_all(&dir);
                    let j = json!({"property": self.id, "prop": name, "sig": e.sig, "msg": e.msg, "case": v, "seed": self.seed});
                    let mut h = DefaultHasher::new();
                    j.to_string().hash(&mut h);
                    let p = dir.join(format!("{}-{:08x}.json", self.id, h.finish() as u32));
                    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
                    self.violations.push((name.into(), p, format!("sig={}\n{}\ncase: {v:?}", e.sig, e.msg)));
                }
                Err(_) => {}
            }
        }
        self.evaluations += n;
        self.per_prop.insert(name.into(), json!({"evaluations": n, "distinct_nontrivial": nt, "exhaustive": true}));
    }

    pub fn finish(mut self) -> std::process::ExitCode {
        if self.replay.is_some() {
            if !self.replay_ran {
                eprintln!("ERROR: no property of {} matches the replay file", self.id);
                std::process::exit(3);
            }
            return std::process::ExitCode::from(u8::from(!self.violations.is_empty()));
        }
        // Replay files of earlier runs of this check that were not written by this one.
        let keep: HashSet<PathBuf> = self.violations.iter().map(|v| v.1.clone()).collect();
        if let Ok(rd) = std::fs::read_dir(self.root.join("evidence").join("replay")) {
            for e in rd.flatten() {
                let p = e.path();
                let mine = p.file_name().and_then(|n| n.to_str()).is_some_and(|n| n.starts_with(&format!("{}-", self.id)));
                if mine && !keep.contains(&p) {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
        let mut excluded = BTreeMap::new();
        for k in &self.known {
            if let Some(n) = self.known_seen.get(&k.sig) {
                println!("KNOWN-FINDING: property={} {}", self.id, k.what);
                excluded.insert(k.sig.clone(), *n);
            }
        }
        self.samples.truncate(12);
        let ev = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.nontrivial.len(),
                "rule": self.rules.join(" || "),
                "samples": self.samples,
                "labels": self.labels,
                "per_prop": self.per_prop,
                "known_findings_hit": excluded,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let p = self.root.join("evidence").join(format!("{}.json", self.id));
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("ERROR: cannot write evidence: {e}");
            std::process::exit(3);
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {:.1} s",
            self.id,
            self.evaluations,
            self.nontrivial.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (name, p, msg) in &self.violations {
            println!("{name}: {msg}");
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        std::process::ExitCode::from(u8::from(!self.violations.is_empty()))
    }
}

/// A scratch directory removed on drop. Never outside `base`.
pub struct Scratch(pub PathBuf);

static SCRATCH_N: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    pub fn new(tag: &str) -> Self {
        let base = std::env::var("VP_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
        let p = base.join(format!("vp-{tag}-{}-{n}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
