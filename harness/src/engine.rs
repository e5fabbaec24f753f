//! Seeded search: cases, workers, supervision, minimisation, replay, evidence.

use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use simrt::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A property violation.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    /// Violation class; minimisation preserves it and known findings name it.
    pub class: String,
    pub detail: String,
}

pub fn viol(class: impl Into<String>, detail: impl Into<String>) -> Violation {
    Violation { class: class.into(), detail: detail.into() }
}

/// What one simulated run reported.
#[derive(Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    /// Counters summed over runs: fault kinds fired, probes hit, ...
    pub counters: BTreeMap<String, u64>,
    /// Identities of the distinct states/schedules/fault placements reached.
    pub distinct: Vec<u64>,
    pub nontrivial: bool,
    /// Simulated time (scheduler steps) covered.
    pub steps: u64,
    /// Hash of everything observable in the run; equal on re-execution.
    pub event_hash: u64,
    /// Scheduler decisions taken, for schedule minimisation.
    pub decisions: BTreeMap<u64, u32>,
    pub os_blocks: u64,
}

impl Outcome {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn fail(&mut self, class: impl Into<String>, detail: impl Into<String>) {
        self.violations.push(viol(class, detail));
    }
    pub fn mix(&mut self, v: u64) {
        self.event_hash = hash2(self.event_hash, v);
    }
    pub fn absorb_report(&mut self, r: &simrt::Report) {
        self.steps += r.steps;
        self.count("sched.preemptions", r.preemptions);
        self.count("sched.steals", r.steals);
        self.count("sched.tasks", r.tasks);
        self.count("fault.stalled_thread", r.stalls);
        self.count("sched.decisions", r.n_decisions);
        self.os_blocks += r.os_blocks;
        self.count("sched.os_blocks", r.os_blocks);
        self.mix(r.schedule_hash);
    }
}

pub fn hash2(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

pub fn hash_bytes(h: u64, s: &[u8]) -> u64 {
    s.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))
}

/// One property's simulated check.
pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// Which components ran real code and which ran a stand-in.
    fn components(&self) -> Value {
        json!({
            "real": ["all ragu_* crates, compiled from /repo's working tree with feature multicore"],
            "stub": ["rayon (deterministic simulator shims/simrt)", "ff/group/pasta_curves/blake2b_simd (offline re-implementations in shims/)"]
        })
    }
    /// Initialises process-wide lazies before any simulation starts.
    fn warm(&self) {}
    /// Shared work done once by the supervisor, before the workers start.
    fn prepare(&self) {}
    /// Fixed cases run before the random ones (regression corpus).
    fn fixed(&self) -> Vec<Value> {
        vec![]
    }
    /// Draws a case. A pure function of the seed.
    fn generate(&self, seed: u64, tier: Tier) -> Value;
    /// Executes a case. A pure function of the case and the code.
    fn execute(&self, case: &Value) -> Outcome;
    /// Smaller candidate cases.
    fn shrink(&self, _case: &Value) -> Vec<Value> {
        vec![]
    }
    /// Wall-clock budget of the search, in seconds.
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 45,
            Tier::Thorough => 1500,
        }
    }
    /// Whether a panic that escapes `execute` is a violation.
    fn workers(&self) -> usize {
        8
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
}

// ---------------------------------------------------------------------------
// Panic capture
// ---------------------------------------------------------------------------

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{msg} at {loc}")));
        if std::env::var_os("HARNESS_VERBOSE").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string payload>".into()
    }
}

/// Runs `f`, turning a panic into its text.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        let t = panic_text(&*p);
        LAST_PANIC.with(|l| l.borrow().clone()).filter(|l| l.starts_with(&t)).unwrap_or(t)
    })
}

// ---------------------------------------------------------------------------
// Case configuration of the scheduler
// ---------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimCase {
    pub seed: u64,
    pub workers: usize,
    /// "seq" | "rand:<permille>" | "pct:<changes>:<horizon>"
    pub policy: String,
    pub chaos_order: bool,
    pub field_gap: u32,
    pub stall_permille: u32,
    pub stall_max: u64,
    /// Recorded decisions; when present they replace the PRNG.
    #[serde(default)]
    pub decisions: Option<BTreeMap<u64, u32>>,
}

impl SimCase {
    pub fn draw(rng: &mut Rng) -> Self {
        let c = simrt::Config::draw(rng);
        SimCase {
            seed: c.seed,
            workers: c.workers,
            policy: match c.policy {
                simrt::Policy::Sequential => "seq".into(),
                simrt::Policy::Random { permille } => format!("rand:{permille}"),
                simrt::Policy::Pct { changes, horizon } => format!("pct:{changes}:{horizon}"),
            },
            chaos_order: c.chaos_order,
            field_gap: c.field_gap,
            stall_permille: c.stall_permille,
            stall_max: c.stall_max,
            decisions: None,
        }
    }
    pub fn config(&self) -> simrt::Config {
        let mut p = self.policy.split(':');
        let policy = match p.next() {
            Some("rand") => simrt::Policy::Random { permille: p.next().unwrap().parse().unwrap() },
            Some("pct") => simrt::Policy::Pct {
                changes: p.next().unwrap().parse().unwrap(),
                horizon: p.next().unwrap().parse().unwrap(),
            },
            _ => simrt::Policy::Sequential,
        };
        simrt::Config {
            seed: self.seed,
            workers: self.workers,
            policy,
            chaos_order: self.chaos_order,
            field_gap: self.field_gap,
            stall_permille: self.stall_permille,
            stall_max: self.stall_max,
            max_steps: 20_000_000,
            replay: self.decisions.clone(),
        }
    }
    pub fn sequential() -> Self {
        SimCase {
            seed: 0,
            workers: 1,
            policy: "seq".into(),
            chaos_order: false,
            field_gap: 0,
            stall_permille: 0,
            stall_max: 0,
            decisions: None,
        }
    }
    /// Runs one closure as the only caller thread.
    pub fn run1<R: Send>(&self, f: impl FnOnce() -> R + Send) -> (Result<R, String>, simrt::Report) {
        let slot: Mutex<Option<R>> = Mutex::new(None);
        let (rep, mut panics) = simrt::run(
            self.config(),
            vec![Box::new(|| {
                let r = f();
                *slot.lock().unwrap() = Some(r);
            })],
        );
        let r = match panics.remove(0) {
            Some(p) => Err(panic_text(&*p)),
            None => Ok(slot.into_inner().unwrap().expect("client finished")),
        };
        (r, rep)
    }
    /// Generic shrink candidates.
    pub fn shrink(&self) -> Vec<SimCase> {
        let mut v = Vec::new();
        if self.decisions.is_none() {
            if self.policy != "seq" || self.workers != 1 {
                v.push(SimCase::sequential());
            }
        }
        if let Some(d) = &self.decisions {
            // Drop halves, quarters, ..., single decisions.
            let keys: Vec<u64> = d.keys().copied().collect();
            let n = keys.len();
            let mut size = n;
            while size >= 1 {
                let mut at = 0;
                while at < n {
                    let gone: HashSet<u64> = keys[at..(at + size).min(n)].iter().copied().collect();
                    let mut c = self.clone();
                    c.decisions =
                        Some(d.iter().filter(|(k, _)| !gone.contains(k)).map(|(k, v)| (*k, *v)).collect());
                    v.push(c);
                    at += size;
                    if v.len() > 60 {
                        break;
                    }
                }
                if size == 1 || v.len() > 60 {
                    break;
                }
                size = size.div_ceil(2);
            }
        }
        if self.workers > 2 {
            let mut c = self.clone();
            c.workers = 2;
            v.push(c);
        }
        if self.stall_permille > 0 {
            let mut c = self.clone();
            c.stall_permille = 0;
            v.push(c);
        }
        if self.field_gap > 0 {
            let mut c = self.clone();
            c.field_gap = 0;
            v.push(c);
        }
        if self.chaos_order {
            let mut c = self.clone();
            c.chaos_order = false;
            v.push(c);
        }
        v
    }
}

// ---------------------------------------------------------------------------
// Paths
// ---------------------------------------------------------------------------

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("HARNESS_SCRATCH").unwrap_or_else(|_| {
        format!("{}/harness-{}", std::env::temp_dir().display(), std::process::id())
    }))
}

// ---------------------------------------------------------------------------
// Executing one case
// ---------------------------------------------------------------------------

/// Executes a case, turning an escaped panic into a violation.
pub fn run_case(p: &dyn Prop, case: &Value) -> Outcome {
    match guard(|| p.execute(case)) {
        Ok(o) => o,
        Err(t) => {
            let mut o = Outcome::default();
            o.fail("panic", format!("a panic escaped: {t}"));
            o
        }
    }
}

static CURRENT: Mutex<Option<(String, Value, Option<PathBuf>)>> = Mutex::new(None);

/// Handler for simulations that can never continue (deadlock, livelock).
pub fn fatal_handler(_cfg: &simrt::Config, f: &simrt::Fatal, rep: &simrt::Report) -> ! {
    let cur = CURRENT.lock().unwrap().clone();
    let v = match f {
        simrt::Fatal::Deadlock { step } => viol("deadlock", format!("no thread can ever run again at step {step}")),
        simrt::Fatal::NoProgress { step } => viol("no-progress", format!("no completion within {step} scheduler steps")),
    };
    if let Some((_, mut case, out)) = cur {
        if let Some(o) = case.pointer_mut("/sim/decisions") {
            *o = serde_json::to_value(&rep.decisions).unwrap();
        }
        if let Some(out) = out {
            let _ = std::fs::write(out, serde_json::to_vec(&json!({"violations": [v], "case": case})).unwrap());
        }
    }
    println!("FATAL {}: {}", v.class, v.detail);
    std::process::exit(1)
}

fn set_current(id: &str, case: &Value, out: Option<PathBuf>) {
    *CURRENT.lock().unwrap() = Some((id.into(), case.clone(), out));
}

/// `exec` mode: run a case file once; write the verdict; exit 1 on violation.
pub fn exec_mode(p: &dyn Prop, file: &Path, out: Option<PathBuf>) -> i32 {
    p.warm();
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("read case")).expect("parse case");
    let case = v.get("case").cloned().unwrap_or(v);
    set_current(p.id(), &case, out.clone());
    let o = run_case(p, &case);
    let mut c2 = case.clone();
    if let Some(d) = c2.pointer_mut("/sim/decisions") {
        if d.is_null() && o.os_blocks == 0 {
            *d = serde_json::to_value(&o.decisions).unwrap();
        }
    }
    if let Some(out) = out {
        let _ = std::fs::write(
            out,
            serde_json::to_vec(&json!({"violations": o.violations, "case": c2, "event_hash": o.event_hash})).unwrap(),
        );
    }
    for v in &o.violations {
        println!("{}: {}", v.class, v.detail);
    }
    println!("event_hash={:016x} steps={}", o.event_hash, o.steps);
    if o.violations.is_empty() { 0 } else { 1 }
}

// ---------------------------------------------------------------------------
// Known findings
// ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub what: String,
}

/// Lines `known: property=<id> class=<class> <what fails>`; lines starting
/// with `fixed:` or `#` suppress nothing.
pub fn known_findings(id: &str) -> Vec<Known> {
    let f = verif_dir().join("known-findings.txt");
    let Ok(s) = std::fs::read_to_string(f) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (property, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("class=")?;
            let (class, what) = rest.split_once(' ')?;
            (property == id).then(|| Known { property: property.into(), class: class.into(), what: what.into() })
        })
        .collect()
}

// ---------------------------------------------------------------------------
// Worker
// ---------------------------------------------------------------------------

#[derive(Default, Serialize, Deserialize)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    counters: BTreeMap<String, u64>,
    distinct: Vec<u64>,
    distinct_nontrivial: Vec<u64>,
    known_hits: BTreeMap<String, u64>,
    redo: u64,
    redo_mismatch: u64,
    samples: Vec<Value>,
    max_case_ms: u64,
}

pub fn case_seed(base: u64, id: &str, i: u64) -> u64 {
    hash2(hash2(base, hash_str(id)), i)
}

pub fn worker_mode(p: &dyn Prop, base: u64, tier: Tier, k: u64, n: u64, dir: &Path, secs: u64) -> i32 {
    p.warm();
    let known = known_findings(p.id());
    let deadline = Instant::now() + Duration::from_secs(secs);
    let cur = dir.join(format!("w{k}.cur"));
    let out = dir.join(format!("w{k}.viol"));
    let max_runs: u64 = std::env::var("HARNESS_MAX_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let mut st = Stats::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut seen_nt: HashSet<u64> = HashSet::new();
    let fixed = p.fixed();
    let mut i = k;
    while Instant::now() < deadline && st.runs < max_runs {
        let case = if (i as usize) < fixed.len() {
            fixed[i as usize].clone()
        } else {
            p.generate(case_seed(base, p.id(), i), tier)
        };
        let _ = std::fs::write(&cur, i.to_string());
        set_current(p.id(), &case, Some(out.clone()));
        let t0 = Instant::now();
        let o = run_case(p, &case);
        let took = t0.elapsed();
        st.max_case_ms = st.max_case_ms.max(took.as_millis() as u64);
        st.runs += 1;
        st.steps += o.steps;
        for (c, v) in &o.counters {
            *st.counters.entry(c.clone()).or_default() += v;
        }
        for d in &o.distinct {
            seen.insert(*d);
        }
        if o.nontrivial {
            st.nontrivial += 1;
            seen_nt.insert(hash_bytes(o.event_hash, serde_json::to_string(&case).unwrap().as_bytes()));
        }
        if st.samples.len() < 2 && o.nontrivial {
            st.samples.push(json!({"index": i, "case": case, "steps": o.steps, "counters": o.counters}));
        }
        // Determinism: re-execute a sample of the runs and compare everything.
        if st.runs == 1 && k < 4 || (st.runs <= 3 && took.as_millis() < 500) || st.runs % 64 == 0 {
            let o2 = run_case(p, &case);
            st.redo += 1;
            if o2.event_hash != o.event_hash && o.os_blocks == 0 && o2.os_blocks == 0 {
                st.redo_mismatch += 1;
                eprintln!("determinism mismatch at index {i}");
            }
        }
        let mut fresh = Vec::new();
        for v in &o.violations {
            if known.iter().any(|kf| kf.class == v.class) {
                *st.known_hits.entry(v.class.clone()).or_default() += 1;
            } else {
                fresh.push(v.clone());
            }
        }
        if !fresh.is_empty() {
            let mut c2 = case.clone();
            if let Some(d) = c2.pointer_mut("/sim/decisions") {
                if d.is_null() && o.os_blocks == 0 {
                    *d = serde_json::to_value(&o.decisions).unwrap();
                }
            }
            std::fs::write(
                &out,
                serde_json::to_vec(&json!({"violations": fresh, "case": case, "case_decided": c2, "index": i})).unwrap(),
            )
            .expect("write violation");
            return 1;
        }
        i += n;
    }
    st.distinct = seen.into_iter().collect();
    st.distinct_nontrivial = seen_nt.into_iter().collect();
    std::fs::write(dir.join(format!("w{k}.stats")), serde_json::to_vec(&st).unwrap()).expect("write stats");
    let _ = std::fs::remove_file(&cur);
    0
}

// ---------------------------------------------------------------------------
// Supervisor
// ---------------------------------------------------------------------------

fn proc_cpu_ticks(pid: u32) -> u64 {
    std::fs::read_to_string(format!("/proc/{pid}/stat"))
        .ok()
        .and_then(|s| {
            let r = s.rsplit(')').next()?.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
            Some(r.get(11)?.parse::<u64>().ok()? + r.get(12)?.parse::<u64>().ok()?)
        })
        .unwrap_or(0)
}

/// CPU seconds a single case may burn, and wall seconds it may sit idle,
/// before it is called a hang.
const HANG_CPU_S: u64 = 150;
const HANG_IDLE_S: u64 = 240;

struct W {
    child: Child,
    k: u64,
    last: String,
    cpu0: u64,
    since: Instant,
    done: bool,
}

pub fn check_mode(p: &dyn Prop, base: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let dir = scratch();
    std::fs::create_dir_all(&dir).expect("scratch dir");
    // A failure here shows again, as a violation, in the runs themselves.
    let _ = guard(|| p.prepare());
    let exe = std::env::current_exe().expect("exe");
    let secs = std::env::var("HARNESS_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(p.budget(tier));
    let n = std::env::var("HARNESS_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(p.workers()) as u64;
    println!(
        "harness: property={} seed={} tier={:?} workers={} budget={}s",
        p.id(), base, tier, n, secs
    );
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut ws: Vec<W> = (0..n)
        .map(|k| W {
            child: Command::new(&exe)
                .args(["worker", p.id(), &base.to_string(), tier_s, &k.to_string(), &n.to_string()])
                .arg(&dir)
                .arg(secs.to_string())
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .spawn()
                .expect("spawn worker"),
            k,
            last: String::new(),
            cpu0: 0,
            since: Instant::now(),
            done: false,
        })
        .collect();
    let mut found: Option<(Value, Vec<Violation>, bool)> = None; // case, violations, minimisable
    let mut broken: Option<String> = None;
    let tick = 100;
    'outer: loop {
        std::thread::sleep(Duration::from_millis(50));
        let mut alive = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            match w.child.try_wait().expect("wait") {
                None => {
                    alive = true;
                    let cur = std::fs::read_to_string(dir.join(format!("w{}.cur", w.k))).unwrap_or_default();
                    if cur != w.last {
                        w.last = cur;
                        w.since = Instant::now();
                        w.cpu0 = proc_cpu_ticks(w.child.id());
                    } else if w.since.elapsed().as_secs() > 30 {
                        let cpu = (proc_cpu_ticks(w.child.id()) - w.cpu0) / tick;
                        let idle = w.since.elapsed().as_secs() > HANG_IDLE_S && cpu < 5;
                        if (cpu > HANG_CPU_S || idle) && !w.last.is_empty() {
                            let i: u64 = w.last.parse().unwrap_or(0);
                            let case = case_at(p, base, tier, i);
                            let _ = w.child.kill();
                            found = Some((case, vec![viol("hang", "the run did not finish")], false));
                            break 'outer;
                        }
                    }
                }
                Some(s) => {
                    w.done = true;
                    if s.code() == Some(0) {
                        continue;
                    }
                    let f = dir.join(format!("w{}.viol", w.k));
                    if let (Some(1), Ok(b)) = (s.code(), std::fs::read(&f)) {
                        let v: Value = serde_json::from_slice(&b).expect("parse violation");
                        let vs: Vec<Violation> = serde_json::from_value(v["violations"].clone()).unwrap();
                        found = Some((v["case"].clone(), vs, true));
                        break 'outer;
                    }
                    use std::os::unix::process::ExitStatusExt;
                    let cur = std::fs::read_to_string(dir.join(format!("w{}.cur", w.k))).unwrap_or_default();
                    match (s.signal(), cur.parse::<u64>()) {
                        (Some(sig), Ok(i)) if sig != 9 && sig != 15 => {
                            let case = case_at(p, base, tier, i);
                            found = Some((case, vec![viol("crash", format!("the process died with signal {sig}"))], true));
                        }
                        _ => broken = Some(format!("worker {} ended with {s:?}", w.k)),
                    }
                    break 'outer;
                }
            }
        }
        if !alive {
            break;
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    if let Some(b) = broken {
        eprintln!("harness error: {b}");
        let _ = std::fs::remove_dir_all(&dir);
        return 2;
    }
    if let Some((case, vs, can)) = found {
        let class = vs[0].class.clone();
        println!("found: {class}: {}", vs[0].detail);
        let (case, detail) = if can { minimise(p, &dir, case, &class, &vs[0].detail) } else { (case, vs[0].detail.clone()) };
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}.json", p.id(), base));
        let body = json!({"property": p.id(), "class": class, "detail": detail, "verif_seed": base, "case": case,
            "how": format!("./check.sh replay {} <this file>", p.id())});
        std::fs::write(&path, serde_json::to_vec_pretty(&body).unwrap()).expect("write replay");
        let ev = json!({
            "property": p.id(), "tier": tier_s, "seed": base, "level": p.level(),
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule(), "samples": [body],
                "note": "stopped at the first violation"},
            "wall_s": t0.elapsed().as_secs_f64(), "violations": 1
        });
        write_evidence(p, &ev);
        println!("violation class: {class}");
        println!("detail: {detail}");
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        let _ = std::fs::remove_dir_all(&dir);
        return 1;
    }
    // Aggregate.
    let mut tot = Stats::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut nt: HashSet<u64> = HashSet::new();
    for k in 0..n {
        let s: Stats =
            serde_json::from_slice(&std::fs::read(dir.join(format!("w{k}.stats"))).expect("stats")).expect("stats");
        tot.runs += s.runs;
        tot.nontrivial += s.nontrivial;
        tot.steps += s.steps;
        tot.redo += s.redo;
        tot.redo_mismatch += s.redo_mismatch;
        tot.max_case_ms = tot.max_case_ms.max(s.max_case_ms);
        for (c, v) in s.counters {
            *tot.counters.entry(c).or_default() += v;
        }
        for (c, v) in s.known_hits {
            *tot.known_hits.entry(c).or_default() += v;
        }
        distinct.extend(s.distinct);
        nt.extend(s.distinct_nontrivial);
        if tot.samples.len() < 3 {
            tot.samples.extend(s.samples.into_iter().take(1));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<String, u64> = tot
        .counters
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("fault.").map(|k| (k.to_string(), *v)))
        .collect();
    let probes: BTreeMap<String, u64> =
        tot.counters.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
    let mut kf: Vec<Value> = Vec::new();
    for k in known_findings(p.id()) {
        let hits = tot.known_hits.get(&k.class).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {}", k.property, k.what);
        kf.push(json!({"class": k.class, "what": k.what, "hits": hits}));
    }
    let ev = json!({
        "property": p.id(), "tier": tier_s, "seed": base, "level": p.level(),
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": nt.len(),
            "rule": p.rule(),
            "samples": tot.samples,
            "runs_per_hour": (tot.runs as f64 / wall * 3600.0) as u64,
            "simulated_time_scheduler_steps": tot.steps,
            "faults_injected": faults,
            "probes": probes,
            "distinct_schedules_or_states": distinct.len(),
            "determinism_reexecutions": tot.redo,
            "determinism_mismatches": tot.redo_mismatch,
            "slowest_run_ms": tot.max_case_ms,
            "worker_processes": n,
            "components": p.components(),
            "known_findings": kf,
        },
        "assumptions": p.assumptions(),
        "wall_s": wall,
        "violations": 0
    });
    write_evidence(p, &ev);
    println!(
        "ok: runs={} nontrivial={} distinct={} steps={} redo={}/{} mismatches, wall={:.1}s slowest={}ms",
        tot.runs, nt.len(), distinct.len(), tot.steps, tot.redo, tot.redo_mismatch, wall, tot.max_case_ms
    );
    println!("counters: {}", serde_json::to_string(&tot.counters).unwrap());
    let _ = std::fs::remove_dir_all(&dir);
    if tot.runs == 0 {
        eprintln!("harness error: nothing ran");
        return 2;
    }
    0
}

fn case_at(p: &dyn Prop, base: u64, tier: Tier, i: u64) -> Value {
    let fixed = p.fixed();
    if (i as usize) < fixed.len() { fixed[i as usize].clone() } else { p.generate(case_seed(base, p.id(), i), tier) }
}

fn write_evidence(p: &dyn Prop, ev: &Value) {
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", p.id())), serde_json::to_vec_pretty(ev).unwrap()).expect("write evidence");
}

/// Runs a candidate in a fresh process; returns its verdict.
fn try_case(p: &dyn Prop, dir: &Path, case: &Value, timeout: Duration) -> Option<(Vec<Violation>, Value)> {
    let f = dir.join("cand.json");
    let out = dir.join("cand.out");
    let _ = std::fs::remove_file(&out);
    std::fs::write(&f, serde_json::to_vec(case).unwrap()).ok()?;
    let mut c = Command::new(std::env::current_exe().ok()?)
        .args(["exec", p.id()])
        .arg(&f)
        .arg(&out)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().ok()? {
            if let Ok(b) = std::fs::read(&out) {
                let v: Value = serde_json::from_slice(&b).ok()?;
                return Some((serde_json::from_value(v["violations"].clone()).ok()?, v["case"].clone()));
            }
            use std::os::unix::process::ExitStatusExt;
            return s.signal().filter(|s| *s != 9).map(|s| (vec![viol("crash", format!("signal {s}"))], case.clone()));
        }
        if t.elapsed() > timeout {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn minimise(p: &dyn Prop, dir: &Path, case: Value, class: &str, detail: &str) -> (Value, String) {
    let end = Instant::now() + Duration::from_secs(60);
    let tmo = Duration::from_secs(30);
    let holds = |c: &Value| -> Option<(Value, String)> {
        let (vs, c2) = try_case(p, dir, c, tmo)?;
        vs.iter().find(|v| v.class == class).map(|v| (c2, v.detail.clone()))
    };
    let mut best = case;
    let mut det = detail.to_string();
    // Reproduce first, then switch to the recorded decision list.
    match holds(&best) {
        Some((decided, d)) => {
            det = d;
            if decided != best {
                if let Some((_, d)) = holds(&decided) {
                    best = decided;
                    det = d;
                }
            }
        }
        None => {
            println!("note: not reproduced on the first re-execution; replay holds the original case");
            return (best, det);
        }
    }
    let mut tried = 0;
    'again: while Instant::now() < end {
        for cand in p.shrink(&best) {
            if Instant::now() > end {
                break 'again;
            }
            tried += 1;
            if let Some((_, d)) = holds(&cand) {
                best = cand;
                det = d;
                continue 'again;
            }
        }
        break;
    }
    println!("minimised with {tried} candidates");
    (best, det)
}

/// Standard shrink of the embedded scheduler case.
pub fn shrink_sim(case: &Value) -> Vec<Value> {
    let Some(s) = case.get("sim") else { return vec![] };
    let Ok(sc) = serde_json::from_value::<SimCase>(s.clone()) else { return vec![] };
    sc.shrink()
        .into_iter()
        .map(|s| {
            let mut c = case.clone();
            c["sim"] = serde_json::to_value(s).unwrap();
            c
        })
        .collect()
}
