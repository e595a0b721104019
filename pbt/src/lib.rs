//! Small driver shared by the harness crates: proptest generation with a pinned seed, fixed case
//! counts sharded over threads, shrinking, replay files that bypass the library, known findings and
//! evidence.

use std::{
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    fs,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::{BoxedStrategy, Strategy},
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};

pub mod sim;

/// What a passing case reports about itself.
#[derive(Default, Clone, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info {
            nontrivial,
            labels: vec![],
        }
    }
    pub fn label(mut self, cond: bool, l: &'static str) -> Self {
        if cond {
            self.labels.push(l);
        }
        self
    }
}

/// A property violation: `sig` names the failing oracle (stable), `msg` the observation.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($fmt)*) });
        }
    };
}

pub type CaseResult = Result<Info, Fail>;

struct Known {
    sig: String,
    text: String,
}

#[derive(Default, Clone)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    excluded_known: BTreeMap<String, u64>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.excluded_known {
            *self.excluded_known.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

struct PropReport {
    name: String,
    rule: String,
    stats: Stats,
}

struct Violation {
    prop: String,
    sig: String,
    msg: String,
    replay: PathBuf,
}

enum Mode {
    Generate,
    Replay {
        prop: String,
        value: serde_json::Value,
        ran: bool,
    },
}

pub struct Session {
    id: String,
    root: PathBuf,
    thorough: bool,
    seed: u64,
    scale: f64,
    only: Option<String>,
    known: Vec<Known>,
    mode: Mode,
    reports: Vec<PropReport>,
    violations: Vec<Violation>,
    started: Instant,
    notes: Vec<String>,
}

pub const SHARDS: u64 = 8;

fn hash_of(parts: &[&[u8]]) -> u64 {
    // FNV-1a: stable across runs and toolchains.
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<&'static str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "<non-string panic>".into())
}

/// The case each thread is executing, with the number of seconds it has been at it.
static CURRENT: Mutex<BTreeMap<u64, (u64, String, String)>> = Mutex::new(BTreeMap::new());
static CASE_KEY: AtomicU64 = AtomicU64::new(0);

/// A case normally takes milliseconds; one that is still running after this many one-second ticks of a
/// thread of this process (so a suspended machine does not count) never completes.
const HANG_TICKS: u64 = 75;

fn hang_monitor(id: String, root: PathBuf) {
    loop {
        std::thread::sleep(Duration::from_secs(1));
        let mut cur = CURRENT.lock().unwrap();
        for (ticks, name, value) in cur.values_mut() {
            *ticks += 1;
            if *ticks >= HANG_TICKS {
                let dir = root.join("replays");
                let _ = fs::create_dir_all(&dir);
                let path = dir.join(format!("{id}-{name}.json"));
                let v: serde_json::Value = serde_json::from_str(value).unwrap_or_default();
                let js = serde_json::json!({
                    "property": id, "prop": name, "sig": "hang",
                    "observed": "the case never completes", "value": v,
                });
                let _ = fs::write(&path, serde_json::to_string_pretty(&js).unwrap());
                println!("{id}/{name} FAILS [hang] the case never completes\n  case: {value}");
                println!("VIOLATION property={id} replay={}", path.display());
                std::process::exit(1);
            }
        }
    }
}

fn run_case<V, T>(name: &str, test: &T, v: &V) -> CaseResult
where
    T: Fn(&V) -> CaseResult,
    V: Serialize,
{
    struct Done(u64);
    impl Drop for Done {
        fn drop(&mut self) {
            CURRENT.lock().unwrap().remove(&self.0);
        }
    }
    let key = CASE_KEY.fetch_add(1, Ordering::Relaxed);
    let json = serde_json::to_string(v).unwrap_or_default();
    let scale = [1, 1, 1, 60, 60, 1000][(hash_of(&[json.as_bytes()]) >> 17) as usize % 6];
    sim::CASE_SCALE.with(|s| s.set(scale));
    CURRENT.lock().unwrap().insert(key, (0, name.to_string(), json));
    let _done = Done(key);
    match catch_unwind(AssertUnwindSafe(|| test(v))) {
        Ok(r) => r,
        Err(p) => fail("panic-in-caller", format!("panicked: {}", panic_msg(p))),
    }
}

impl Session {
    pub fn new(id: &str) -> Self {
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let only = std::env::var("VERIF_ONLY").ok();
        let mut known = vec![];
        if let Ok(text) = fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
            for line in text.lines() {
                // finding: property=<id> sig=<sig> <what fails>
                if let Some(rest) = line.strip_prefix("finding: ") {
                    let mut it = rest.splitn(3, ' ');
                    let p = it.next().unwrap_or("").trim_start_matches("property=");
                    let s = it.next().unwrap_or("").trim_start_matches("sig=");
                    let t = it.next().unwrap_or("");
                    if p == id {
                        known.push(Known { sig: s.into(), text: t.into() });
                    }
                }
            }
        }
        std::panic::set_hook(Box::new(|info| {
            if std::env::var_os("VERIF_PANICS").is_some() {
                eprintln!("[panic] {info}");
            }
        }));
        {
            let (id, root) = (id.to_string(), root.clone());
            std::thread::spawn(move || hang_monitor(id, root));
        }
        let limit = if thorough { 6 * 3600 } else { 840 };
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(limit));
            eprintln!("watchdog: no verdict after {limit} s (inconclusive)");
            std::process::exit(3);
        });
        Session {
            id: id.into(),
            root,
            thorough,
            seed,
            scale,
            only,
            known,
            mode: Mode::Generate,
            reports: vec![],
            violations: vec![],
            started: Instant::now(),
            notes: vec![],
        }
    }

    pub fn replay(file: &str) -> Result<Self, String> {
        let text = fs::read_to_string(file).map_err(|e| e.to_string())?;
        let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let id = v["property"].as_str().ok_or("no property")?.to_string();
        let mut s = Session::new(&id);
        s.mode = Mode::Replay {
            prop: v["prop"].as_str().ok_or("no prop")?.to_string(),
            value: v["value"].clone(),
            ran: false,
        };
        Ok(s)
    }

    pub fn id(&self) -> &str {
        &self.id
    }
    pub fn thorough(&self) -> bool {
        self.thorough
    }
    pub fn seed(&self) -> u64 {
        self.seed
    }
    pub fn note(&mut self, n: impl Into<String>) {
        self.notes.push(n.into());
    }

    /// Runs one generated check: `quick` cases in the quick tier, `thorough` in the thorough tier.
    pub fn prop<V, S, T>(&mut self, name: &str, rule: &str, quick: u64, thorough: u64, strat: S, test: T)
    where
        V: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
        S: Fn() -> BoxedStrategy<V> + Sync,
        T: Fn(&V) -> CaseResult + Sync,
    {
        self.prop_sharded(name, rule, quick, thorough, SHARDS, strat, test)
    }

    /// As `prop` with a chosen number of threads (1 for checks that own process-global state).
    #[allow(clippy::too_many_arguments)]
    pub fn prop_sharded<V, S, T>(
        &mut self,
        name: &str,
        rule: &str,
        quick: u64,
        thorough: u64,
        shards: u64,
        strat: S,
        test: T,
    ) where
        V: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
        S: Fn() -> BoxedStrategy<V> + Sync,
        T: Fn(&V) -> CaseResult + Sync,
    {
        if let Mode::Replay { prop, value, ran } = &mut self.mode {
            if prop != name {
                return;
            }
            *ran = true;
            let v: V = serde_json::from_value(value.clone()).expect("replay value");
            println!("replaying {}/{} on {:#?}", self.id, name, v);
            match run_case(name, &test, &v) {
                Ok(i) => println!("replay: holds ({i:?})"),
                Err(f) => {
                    println!("replay: fails [{}] {}", f.sig, f.msg);
                    self.violations.push(Violation {
                        prop: name.into(),
                        sig: f.sig,
                        msg: f.msg,
                        replay: PathBuf::from("-"),
                    });
                }
            }
            return;
        }
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }
        let total = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u64;
        let per = total.div_ceil(shards);
        let stop = AtomicBool::new(false);
        let running = AtomicU64::new(shards);
        let known: HashSet<&str> = self.known.iter().map(|k| k.sig.as_str()).collect();
        let t0 = Instant::now();
        #[allow(clippy::type_complexity)]
        let results: Mutex<Vec<(u64, Stats, Option<(V, Fail)>, Option<String>)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for shard in 0..shards {
                let (strat, test, stop, known, results, running) =
                    (&strat, &test, &stop, &known, &results, &running);
                let (id, seed) = (self.id.clone(), self.seed);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut key = [0u8; 32];
                        for i in 0..4u64 {
                            let h = hash_of(&[
                                &seed.to_le_bytes(),
                                id.as_bytes(),
                                name.as_bytes(),
                                &shard.to_le_bytes(),
                                &i.to_le_bytes(),
                            ]);
                            key[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
                        }
                        let cfg = Config {
                            cases: per as u32,
                            failure_persistence: None,
                            max_shrink_iters: 4000,
                            max_shrink_time: std::env::var("VERIF_SHRINK_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(120_000),
                            max_global_rejects: 1 << 20,
                            ..Config::default()
                        };
                        let mut runner =
                            TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &key));
                        let stats = std::cell::RefCell::new(Stats::default());
                        let shrinking = std::cell::Cell::new(false);
                        let first_sig = std::cell::RefCell::new(None::<String>);
                        let r = runner.run(&strat(), |v| {
                            if stop.load(Ordering::Relaxed) && !shrinking.get() {
                                return Ok(());
                            }
                            let res = run_case(name, test, &v);
                            let mut st = stats.borrow_mut();
                            match res {
                                Ok(info) => {
                                    if !shrinking.get() {
                                        st.evaluations += 1;
                                        for l in &info.labels {
                                            *st.labels.entry(l.to_string()).or_default() += 1;
                                        }
                                        if info.nontrivial {
                                            st.nontrivial += 1;
                                            let js = serde_json::to_string(&v).unwrap_or_default();
                                            let mut h = std::collections::hash_map::DefaultHasher::new();
                                            js.hash(&mut h);
                                            if st.distinct.insert(h.finish()) && st.samples.is_empty() {
                                                let mut js = js;
                                                if js.len() > 1500 {
                                                    let mut n = 1500;
                                                    while !js.is_char_boundary(n) {
                                                        n -= 1;
                                                    }
                                                    js.truncate(n);
                                                    js.push('…');
                                                }
                                                st.samples.push(format!("{name}: {js}"));
                                            }
                                        }
                                    }
                                    Ok(())
                                }
                                Err(f) => {
                                    if known.contains(f.sig.as_str()) {
                                        if !shrinking.get() {
                                            st.evaluations += 1;
                                        }
                                        *st.excluded_known.entry(f.sig).or_default() += 1;
                                        return Ok(());
                                    }
                                    // while shrinking, stay on the same root cause
                                    if let Some(s) = &*first_sig.borrow() {
                                        if *s != f.sig {
                                            return Ok(());
                                        }
                                    }
                                    if !shrinking.get() {
                                        st.evaluations += 1;
                                    }
                                    *first_sig.borrow_mut() = Some(f.sig.clone());
                                    shrinking.set(true);
                                    stop.store(true, Ordering::Relaxed);
                                    Err(TestCaseError::fail(format!("{}\u{1}{}", f.sig, f.msg)))
                                }
                            }
                        });
                        let (bad, err) = match r {
                            Ok(()) => (None, None),
                            Err(TestError::Fail(reason, v)) => {
                                let m = reason.message().to_string();
                                let (sig, msg) = m.split_once('\u{1}').unwrap_or(("panic", &m));
                                (Some((v, Fail { sig: sig.into(), msg: msg.into() })), None)
                            }
                            Err(TestError::Abort(r)) => (None, Some(r.message().to_string())),
                        };
                        running.fetch_sub(1, Ordering::Relaxed);
                        results.lock().unwrap().push((shard, stats.into_inner(), bad, err));
                    })
                    .unwrap();
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut stats = Stats::default();
        let mut worst: Option<(V, Fail)> = None;
        for (_, st, bad, err) in results {
            stats.merge(st);
            if let Some(e) = err {
                eprintln!("{}/{}: generator gave up: {e}", self.id, name);
                std::process::exit(4);
            }
            if let Some(b) = bad {
                let shorter = |a: &V, b: &V| {
                    serde_json::to_string(a).map(|s| s.len()).unwrap_or(0)
                        < serde_json::to_string(b).map(|s| s.len()).unwrap_or(0)
                };
                match &worst {
                    Some((w, _)) if !shorter(&b.0, w) => {}
                    _ => worst = Some(b),
                }
            }
        }
        println!(
            "{}/{}: {} cases, {} distinct non-trivial, {:.1} s, labels {:?}{}",
            self.id,
            name,
            stats.evaluations,
            stats.distinct.len(),
            t0.elapsed().as_secs_f64(),
            stats.labels,
            if stats.excluded_known.is_empty() {
                String::new()
            } else {
                format!(", known findings hit {:?}", stats.excluded_known)
            }
        );
        if let Some((v, f)) = worst {
            let dir = self.root.join("replays");
            let _ = fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}.json", self.id, name));
            let js = serde_json::json!({
                "property": self.id, "prop": name, "sig": f.sig, "observed": f.msg,
                "seed": self.seed, "value": v,
            });
            let _ = fs::write(&path, serde_json::to_string_pretty(&js).unwrap());
            println!("{}/{} FAILS [{}] {}\n  minimal case: {}", self.id, name, f.sig, f.msg,
                serde_json::to_string(&v).unwrap_or_default());
            self.violations.push(Violation {
                prop: name.into(),
                sig: f.sig,
                msg: f.msg,
                replay: path,
            });
        }
        self.reports.push(PropReport {
            name: name.into(),
            rule: rule.into(),
            stats,
        });
    }

    /// Writes the evidence file, prints verdict lines and returns the exit code.
    pub fn finish(self) -> i32 {
        if let Mode::Replay { ran, prop, .. } = &self.mode {
            if !ran {
                println!("no check named {prop} for {}", self.id);
                return 2;
            }
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        let mut total = 0;
        let mut distinct = 0;
        let mut samples = vec![];
        let mut per = serde_json::Map::new();
        let mut rules = vec![];
        let mut hit: BTreeMap<String, u64> = BTreeMap::new();
        for r in &self.reports {
            total += r.stats.evaluations;
            distinct += r.stats.distinct.len() as u64;
            samples.extend(r.stats.samples.iter().take(2).cloned());
            rules.push(format!("{}: {}", r.name, r.rule));
            for (k, v) in &r.stats.excluded_known {
                *hit.entry(k.clone()).or_default() += v;
            }
            per.insert(
                r.name.clone(),
                serde_json::json!({
                    "evaluations": r.stats.evaluations,
                    "nontrivial": r.stats.nontrivial,
                    "distinct_nontrivial": r.stats.distinct.len(),
                    "labels": r.stats.labels,
                    "cases_excluded_as_known_finding": r.stats.excluded_known,
                }),
            );
        }
        let dir = self.root.join("evidence");
        let file = dir.join(format!("{}.json", self.id));
        let mut wall = self.started.elapsed().as_secs_f64();
        let mut bad = self.violations.len() as u64;
        if std::env::var_os("VERIF_MERGE").is_some() {
            // the second part of a check: what the first one covered is added
            let first = fs::read(&file).ok().and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok());
            if let Some(f) = first {
                let c = &f["coverage"];
                total += c["evaluations"].as_u64().unwrap_or(0);
                distinct += c["distinct_nontrivial"].as_u64().unwrap_or(0);
                rules.insert(0, c["rule"].as_str().unwrap_or("").to_string());
                let old = c["samples"].as_array().cloned().unwrap_or_default();
                samples = old.iter().filter_map(|s| s.as_str().map(String::from)).chain(samples).collect();
                for (k, v) in c["per_check"].as_object().cloned().unwrap_or_default() {
                    per.insert(k, v);
                }
                wall += f["wall_s"].as_f64().unwrap_or(0.0);
                bad += f["violations"].as_u64().unwrap_or(0);
            }
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total,
                "distinct_nontrivial": distinct,
                "rule": rules.join(" | "),
                "samples": samples,
                "per_check": per,
            },
            "assumptions": self.notes,
            "wall_s": wall,
            "violations": bad,
        });
        let _ = fs::create_dir_all(&dir);
        if let Err(e) = fs::write(
            file,
            serde_json::to_string_pretty(&ev).unwrap(),
        ) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        for k in &self.known {
            println!(
                "KNOWN-FINDING: property={} sig={} {} (seen in {} cases of this run)",
                self.id, k.sig, k.text, hit.get(&k.sig).copied().unwrap_or(0)
            );
        }
        for v in &self.violations {
            println!("{}/{} [{}] {:.300}", self.id, v.prop, v.sig, v.msg.lines().next().unwrap_or(""));
            println!("VIOLATION property={} replay={}", self.id, v.replay.display());
        }
        if self.violations.is_empty() {
            println!("{}: held on {} generated cases ({} distinct non-trivial)", self.id, total, distinct);
            0
        } else {
            1
        }
    }
}

pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}
