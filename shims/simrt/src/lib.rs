//! Deterministic simulator for a fork-join worker pool and its caller threads.
//!
//! Every simulated thread is a real OS thread, but exactly one of them holds
//! the *baton* at any moment; all others are parked. At every yield point
//! (task spawn, task start, task end, join/scope waits, field-operation
//! countdown, explicit calls from witness closures) the scheduler decides who
//! runs next from one seeded PRNG, or from a recorded list of decisions. One
//! seed (or one decision list) is therefore one exactly repeatable execution.
//!
//! With no simulation active on the current thread every entry point falls
//! back to plain sequential execution.

use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::{BTreeMap, VecDeque},
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex, MutexGuard,
    },
    thread::Thread,
};

pub mod rng;
pub use rng::Rng;

// ---------------------------------------------------------------------------
// Configuration and reports
// ---------------------------------------------------------------------------

/// How the next thread is chosen at a yield point.
#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// Never preempt voluntarily.
    Sequential,
    /// Preempt with probability `permille / 1000`, uniformly.
    Random { permille: u32 },
    /// Priority based (PCT): strict priorities with `changes` random
    /// priority-change points among the first `horizon` decisions.
    Pct { changes: u32, horizon: u32 },
}

/// One run's configuration; a pure function of the seed of that run.
#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    /// Number of pool workers.
    pub workers: usize,
    pub policy: Policy,
    /// Jobs are picked in arbitrary order rather than LIFO-own/FIFO-steal.
    pub chaos_order: bool,
    /// Mean number of field operations between field-op yield points
    /// (0 disables them).
    pub field_gap: u32,
    /// Probability (permille) that a worker is stalled at a yield point, and
    /// how many scheduler steps the stall lasts at most.
    pub stall_permille: u32,
    pub stall_max: u64,
    /// Abort the run as "no progress" after this many scheduler steps.
    pub max_steps: u64,
    /// Replay: forced decisions by decision index. When present, decisions not
    /// listed take their default (index 0) and the PRNG is not used.
    pub replay: Option<BTreeMap<u64, u32>>,
}

impl Config {
    pub fn sequential() -> Self {
        Config {
            seed: 0,
            workers: 1,
            policy: Policy::Sequential,
            chaos_order: false,
            field_gap: 0,
            stall_permille: 0,
            stall_max: 0,
            max_steps: 50_000_000,
            replay: None,
        }
    }

    /// Draws a configuration (swarm style) from `rng`.
    pub fn draw(rng: &mut Rng) -> Self {
        let workers = [1, 2, 2, 3, 4, 4, 6, 8, 13][rng.below(9) as usize];
        let policy = match rng.below(8) {
            0 => Policy::Sequential,
            1 => Policy::Random { permille: 20 },
            2 | 3 => Policy::Random { permille: 200 },
            4 => Policy::Random { permille: 600 },
            5 => Policy::Random { permille: 1000 },
            _ => Policy::Pct {
                changes: 1 + rng.below(6) as u32,
                horizon: [16, 64, 256][rng.below(3) as usize],
            },
        };
        Config {
            seed: rng.next(),
            workers,
            policy,
            chaos_order: rng.below(3) == 0,
            field_gap: [0, 7, 40, 300, 2000][rng.below(5) as usize],
            stall_permille: [0, 0, 10, 60][rng.below(4) as usize],
            stall_max: 1 + rng.below(40),
            max_steps: 50_000_000,
            replay: None,
        }
    }
}

/// What happened in one run.
#[derive(Clone, Debug, Default)]
pub struct Report {
    /// Scheduler steps; this is the simulated clock.
    pub steps: u64,
    /// Non-default decisions taken, by decision index.
    pub decisions: BTreeMap<u64, u32>,
    pub n_decisions: u64,
    pub preemptions: u64,
    pub steals: u64,
    pub stalls: u64,
    pub tasks: u64,
    /// Hash of the sequence of (thread, event) pairs: identifies the schedule.
    pub schedule_hash: u64,
    /// Times the baton holder blocked in the operating system.
    pub os_blocks: u64,
}

/// A run that cannot continue.
#[derive(Clone, Debug)]
pub enum Fatal {
    /// Nothing can ever run again.
    Deadlock { step: u64 },
    /// `max_steps` exceeded.
    NoProgress { step: u64 },
}

// ---------------------------------------------------------------------------
// Internal state
// ---------------------------------------------------------------------------

type Job = Box<dyn FnOnce() + Send + 'static>;

struct QJob {
    id: u64,
    job: Job,
}

/// A one-shot latch.
#[derive(Clone)]
pub struct Latch(Arc<AtomicBool>);
impl Latch {
    pub fn new() -> Self {
        Latch(Arc::new(AtomicBool::new(false)))
    }
    fn get(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
    fn set(&self) {
        self.0.store(true, Ordering::SeqCst)
    }
}
impl Default for Latch {
    fn default() -> Self {
        Self::new()
    }
}

enum St {
    Ready,
    Wait { latch: Latch, steal: bool },
    Idle,
    OsBlocked,
    Done,
}

struct Th {
    st: St,
    handle: Option<Thread>,
    os_tid: u64,
    stalled_until: u64,
    prio: u64,
}

struct Inner {
    rng: Rng,
    threads: Vec<Th>,
    deques: Vec<VecDeque<QJob>>,
    injector: VecDeque<QJob>,
    holder: usize,
    steps: u64,
    next_job: u64,
    clients_left: usize,
    shutdown: bool,
    report: Report,
    hash: u64,
    pct_points: Vec<u64>,
}

const NOBODY: usize = usize::MAX;

pub struct Sim {
    cfg: Config,
    inner: Mutex<Inner>,
    holder: AtomicUsize,
    started: AtomicBool,
    done: AtomicBool,
    main: Thread,
}

struct Ctx {
    sim: Arc<Sim>,
    tid: usize,
    worker: Option<usize>,
}

thread_local! {
    static CUR: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static COUNTDOWN: Cell<u32> = const { Cell::new(u32::MAX) };
    static GAP: Cell<u32> = const { Cell::new(0) };
    static NOYIELD: Cell<u32> = const { Cell::new(0) };
}

static FATAL: Mutex<Option<fn(&Config, &Fatal, &Report) -> !>> = Mutex::new(None);
static WATCH: Mutex<Option<Arc<Sim>>> = Mutex::new(None);
static WATCHDOG: std::sync::Once = std::sync::Once::new();

/// Installs the process-wide handler for runs that cannot continue.
pub fn on_fatal(f: fn(&Config, &Fatal, &Report) -> !) {
    *FATAL.lock().unwrap() = Some(f);
}

fn fatal(sim: &Sim, g: MutexGuard<'_, Inner>, f: Fatal) -> ! {
    let mut rep = g.report.clone();
    rep.steps = g.steps;
    if std::env::var_os("SIMRT_DEBUG").is_some() {
        for (i, t) in g.threads.iter().enumerate() {
            let st = match &t.st {
                St::Ready => "ready".to_string(),
                St::Wait { latch, steal } => format!("wait latch={} steal={steal}", latch.get()),
                St::Idle => "idle".into(),
                St::OsBlocked => "os-blocked".into(),
                St::Done => "done".into(),
            };
            eprintln!("simrt: thread {i}: {st}, stalled until {}", t.stalled_until);
        }
        eprintln!("simrt: holder {} jobs {} shutdown {}", g.holder, g.jobs_available(), g.shutdown);
    }
    drop(g);
    let h = *FATAL.lock().unwrap();
    match h {
        Some(h) => h(&sim.cfg, &f, &rep),
        None => {
            eprintln!("simrt: {f:?}");
            std::process::exit(70)
        }
    }
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) ^ v.wrapping_mul(0xD6E8_FEB8_6659_FD93)
}

impl Inner {
    /// Takes one recorded decision among `n` alternatives; 0 is the default.
    fn decide(&mut self, cfg: &Config, n: usize, pick: impl FnOnce(&mut Rng) -> usize) -> usize {
        let idx = self.report.n_decisions;
        self.report.n_decisions += 1;
        let c = match &cfg.replay {
            Some(m) => (*m.get(&idx).unwrap_or(&0) as usize).min(n - 1),
            None => pick(&mut self.rng),
        };
        if c != 0 {
            self.report.decisions.insert(idx, c as u32);
        }
        c
    }

    fn jobs_available(&self) -> bool {
        !self.injector.is_empty() || self.deques.iter().any(|d| !d.is_empty())
    }

    fn runnable(&self, t: &Th) -> bool {
        match &t.st {
            St::Ready => true,
            St::Wait { latch, steal } => latch.get() || (*steal && self.jobs_available()),
            St::Idle => self.shutdown || self.jobs_available(),
            St::OsBlocked | St::Done => false,
        }
    }
}

impl Sim {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Chooses who runs next. `me` is the current thread if it may continue.
    fn choose<'a>(
        &'a self,
        mut g: MutexGuard<'a, Inner>,
        me: Option<usize>,
    ) -> (MutexGuard<'a, Inner>, usize) {
        g.steps += 1;
        if g.steps > self.cfg.max_steps {
            let step = g.steps;
            fatal(self, g, Fatal::NoProgress { step });
        }
        // Candidates, current thread first.
        let mut cand: Vec<usize> = Vec::with_capacity(g.threads.len());
        if let Some(m) = me {
            if g.runnable(&g.threads[m]) {
                cand.push(m);
            }
        }
        for i in 0..g.threads.len() {
            if Some(i) != me && g.runnable(&g.threads[i]) {
                cand.push(i);
            }
        }
        if cand.is_empty() {
            return (g, NOBODY);
        }
        // Stalled threads run only when nothing else can (time then jumps).
        let now = g.steps;
        let awake: Vec<usize> = cand
            .iter()
            .copied()
            .filter(|&i| g.threads[i].stalled_until <= now)
            .collect();
        let cand = if awake.is_empty() {
            let wake = cand.iter().map(|&i| g.threads[i].stalled_until).min().unwrap();
            g.steps = g.steps.max(wake);
            let first = cand.iter().copied().find(|&i| g.threads[i].stalled_until == wake).unwrap();
            vec![first]
        } else {
            awake
        };
        let next = if cand.len() == 1 {
            cand[0]
        } else {
            let cont = me.is_some_and(|m| cand[0] == m);
            let n = cand.len();
            let cfg = &self.cfg;
            let c = match cfg.policy {
                Policy::Sequential => g.decide(cfg, n, |_| 0),
                Policy::Random { permille } => g.decide(cfg, n, |r| {
                    if cont && r.below(1000) >= permille as u64 {
                        0
                    } else {
                        r.below(n as u64) as usize
                    }
                }),
                Policy::Pct { .. } => {
                    let at = g.report.n_decisions;
                    if cont && g.pct_points.contains(&at) {
                        let low = g.threads.iter().map(|t| t.prio).min().unwrap();
                        let m = me.unwrap();
                        g.threads[m].prio = low.saturating_sub(1);
                    }
                    let best = (0..n)
                        .max_by_key(|&k| (g.threads[cand[k]].prio, n - k))
                        .unwrap();
                    g.decide(cfg, n, |_| best)
                }
            };
            cand[c]
        };
        if let (Some(m), true) = (me, self.cfg.stall_permille > 0) {
            let (p, mx) = (self.cfg.stall_permille as u64, self.cfg.stall_max);
            let d = g.decide(&self.cfg, 1 + mx as usize, |r| {
                if r.below(1000) < p {
                    1 + r.below(mx) as usize
                } else {
                    0
                }
            });
            if d > 0 {
                g.report.stalls += 1;
                let until = g.steps + d as u64;
                g.threads[m].stalled_until = until;
            }
        }
        if me.is_some() && Some(next) != me {
            g.report.preemptions += 1;
        }
        g.hash = mix(g.hash, next as u64 + 1);
        (g, next)
    }

    /// Hands the baton to `next` and parks until it comes back to `tid`.
    fn pass(&self, mut g: MutexGuard<'_, Inner>, tid: usize, next: usize) {
        if next == tid {
            return;
        }
        if next == NOBODY {
            if !g.threads.iter().any(|t| matches!(t.st, St::OsBlocked)) {
                let step = g.steps;
                fatal(self, g, Fatal::Deadlock { step });
            }
            g.holder = NOBODY;
            self.holder.store(NOBODY, Ordering::SeqCst);
        } else {
            g.holder = next;
            self.holder.store(next, Ordering::SeqCst);
            if let Some(h) = &g.threads[next].handle {
                h.unpark();
            }
        }
        drop(g);
        self.await_baton(tid);
    }

    fn await_baton(&self, tid: usize) {
        while self.holder.load(Ordering::SeqCst) != tid {
            std::thread::park();
        }
    }

    /// If this thread lost the baton while blocked in the OS, get it back.
    fn reclaim(&self, tid: usize) {
        let mut g = self.lock();
        if g.holder == tid {
            return;
        }
        g.threads[tid].st = St::Ready;
        if g.holder == NOBODY {
            g.holder = tid;
            self.holder.store(tid, Ordering::SeqCst);
            return;
        }
        drop(g);
        self.await_baton(tid);
    }

    fn yield_now(&self, tid: usize, event: u64) {
        self.reclaim(tid);
        let mut g = self.lock();
        g.hash = mix(g.hash, event);
        let (g, next) = self.choose(g, Some(tid));
        self.pass(g, tid, next);
    }

    /// Blocks until the latch is set, running other jobs if allowed to.
    fn wait_latch(&self, tid: usize, worker: Option<usize>, latch: &Latch) {
        loop {
            self.reclaim(tid);
            if latch.get() {
                return;
            }
            let mut g = self.lock();
            if let Some(w) = worker {
                if let Some(j) = self.find_job(&mut g, w) {
                    drop(g);
                    self.execute(tid, j);
                    continue;
                }
            }
            g.threads[tid].st = St::Wait {
                latch: latch.clone(),
                steal: worker.is_some(),
            };
            let (g, next) = self.choose(g, Some(tid));
            self.pass(g, tid, next);
            self.lock().threads[tid].st = St::Ready;
        }
    }

    fn find_job(&self, g: &mut Inner, w: usize) -> Option<QJob> {
        if self.cfg.chaos_order {
            // Any pending job anywhere, in any order.
            let mut slots: Vec<(usize, usize)> = Vec::new();
            for k in (0..g.deques[w].len()).rev() {
                slots.push((w, k));
            }
            for k in 0..g.injector.len() {
                slots.push((NOBODY, k));
            }
            for (d, q) in g.deques.iter().enumerate() {
                if d != w {
                    slots.extend((0..q.len()).map(|k| (d, k)));
                }
            }
            if slots.is_empty() {
                return None;
            }
            let n = slots.len();
            let c = if n == 1 { 0 } else { g.decide(&self.cfg, n, |r| r.below(n as u64) as usize) };
            let (d, k) = slots[c];
            if d == NOBODY {
                return g.injector.remove(k);
            }
            if d != w {
                g.report.steals += 1;
            }
            return g.deques[d].remove(k);
        }
        if let Some(j) = g.deques[w].pop_back() {
            return Some(j);
        }
        // Victims: the injector and every other non-empty deque.
        let mut victims: Vec<usize> = Vec::new();
        for (d, q) in g.deques.iter().enumerate() {
            if d != w && !q.is_empty() {
                victims.push(d);
            }
        }
        if !g.injector.is_empty() {
            victims.push(NOBODY);
        }
        if victims.is_empty() {
            return None;
        }
        let n = victims.len();
        let c = if n == 1 { 0 } else { g.decide(&self.cfg, n, |r| r.below(n as u64) as usize) };
        if victims[c] == NOBODY {
            g.injector.pop_front()
        } else {
            g.report.steals += 1;
            g.deques[victims[c]].pop_front()
        }
    }

    fn execute(&self, tid: usize, j: QJob) {
        {
            let mut g = self.lock();
            g.report.tasks += 1;
            g.hash = mix(g.hash, 0x1000 + j.id);
        }
        self.yield_now(tid, 1);
        (j.job)();
        self.yield_now(tid, 2);
    }

    fn push_local(&self, w: usize, job: Job) -> u64 {
        let mut g = self.lock();
        let id = g.next_job;
        g.next_job += 1;
        g.deques[w].push_back(QJob { id, job });
        id
    }

    fn inject(&self, job: Job) {
        let mut g = self.lock();
        let id = g.next_job;
        g.next_job += 1;
        g.injector.push_back(QJob { id, job });
    }

    fn worker_main(&self, tid: usize, w: usize) {
        self.lock().threads[tid].st = St::Ready;
        loop {
            self.reclaim(tid);
            let mut g = self.lock();
            if let Some(j) = self.find_job(&mut g, w) {
                drop(g);
                self.execute(tid, j);
                continue;
            }
            if g.shutdown {
                break;
            }
            g.threads[tid].st = St::Idle;
            let (g, next) = self.choose(g, Some(tid));
            self.pass(g, tid, next);
            self.lock().threads[tid].st = St::Ready;
        }
        self.retire(tid);
    }

    /// Marks this thread finished and passes the baton on for good.
    fn retire(&self, tid: usize) {
        let mut g = self.lock();
        g.threads[tid].st = St::Done;
        if g.threads.iter().all(|t| matches!(t.st, St::Done)) {
            self.done.store(true, Ordering::SeqCst);
            self.main.unpark();
            return;
        }
        let (mut g, next) = self.choose(g, None);
        if next == NOBODY {
            if !g.threads.iter().any(|t| matches!(t.st, St::OsBlocked)) {
                let step = g.steps;
                fatal(self, g, Fatal::Deadlock { step });
            }
            g.holder = NOBODY;
            self.holder.store(NOBODY, Ordering::SeqCst);
            return;
        }
        g.holder = next;
        self.holder.store(next, Ordering::SeqCst);
        if let Some(h) = &g.threads[next].handle {
            h.unpark();
        }
    }
}

fn os_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

fn os_sleeping(tid: u64) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else {
        return false;
    };
    s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
}

/// Hands the baton on when its holder is blocked in the OS on something the
/// simulator does not own (a real lock or channel), so that such code is slow
/// under simulation rather than reported as stuck.
fn watchdog() {
    let mut last = (0u64, NOBODY);
    let mut same = 0u32;
    let mut starving = 0u32;
    loop {
        std::thread::sleep(std::time::Duration::from_millis(25));
        let Some(sim) = WATCH.lock().unwrap().clone() else {
            same = 0;
            starving = 0;
            continue;
        };
        if !sim.started.load(Ordering::SeqCst) || sim.done.load(Ordering::SeqCst) {
            continue;
        }
        let mut g = sim.lock();
        if g.holder == NOBODY {
            let all_asleep = g
                .threads
                .iter()
                .all(|t| !matches!(t.st, St::OsBlocked) || os_sleeping(t.os_tid));
            starving = if all_asleep { starving + 1 } else { 0 };
            if starving > 200 {
                let step = g.steps;
                fatal(&sim, g, Fatal::Deadlock { step });
            }
            continue;
        }
        starving = 0;
        let cur = (g.steps, g.holder);
        if cur == last && os_sleeping(g.threads[g.holder].os_tid) {
            same += 1;
        } else {
            same = 0;
        }
        last = cur;
        if same >= 12 {
            same = 0;
            let h = g.holder;
            g.threads[h].st = St::OsBlocked;
            g.report.os_blocks += 1;
            let (mut g, next) = sim.choose(g, None);
            g.holder = next;
            sim.holder.store(next, Ordering::SeqCst);
            if next != NOBODY {
                if let Some(t) = &g.threads[next].handle {
                    t.unpark();
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Running a simulation
// ---------------------------------------------------------------------------

/// Runs `clients` (caller threads outside the pool) to completion against a
/// simulated pool. A panicking client is reported in the returned vector.
pub fn run<'a>(
    cfg: Config,
    clients: Vec<Box<dyn FnOnce() + Send + 'a>>,
) -> (Report, Vec<Option<Box<dyn Any + Send>>>) {
    assert!(!active(), "nested simulations are not supported");
    WATCHDOG.call_once(|| {
        std::thread::Builder::new().name("simrt-watchdog".into()).spawn(watchdog).unwrap();
    });
    let nc = clients.len();
    let nw = cfg.workers.max(1);
    let mut rng = Rng::new(cfg.seed);
    let total = nc + nw;
    let mut threads: Vec<Th> = Vec::new();
    let mut prios: Vec<u64> = (0..total as u64).map(|p| p + (1 << 32)).collect();
    for i in (1..total).rev() {
        prios.swap(i, rng.below(i as u64 + 1) as usize);
    }
    for (i, prio) in prios.into_iter().enumerate() {
        threads.push(Th {
            st: if i < nc { St::Ready } else { St::Idle },
            handle: None,
            os_tid: 0,
            stalled_until: 0,
            prio,
        });
    }
    let pct_points = match cfg.policy {
        Policy::Pct { changes, horizon } => {
            (0..changes).map(|_| rng.below(horizon as u64)).collect()
        }
        _ => Vec::new(),
    };
    let sim = Arc::new(Sim {
        inner: Mutex::new(Inner {
            rng,
            threads,
            deques: (0..nw).map(|_| VecDeque::new()).collect(),
            injector: VecDeque::new(),
            holder: NOBODY,
            steps: 0,
            next_job: 0,
            clients_left: nc,
            shutdown: nc == 0,
            report: Report::default(),
            hash: 0,
            pct_points,
        }),
        cfg,
        holder: AtomicUsize::new(NOBODY),
        started: AtomicBool::new(false),
        done: AtomicBool::new(false),
        main: std::thread::current(),
    });
    let ready = AtomicUsize::new(0);
    let panics: Mutex<Vec<Option<Box<dyn Any + Send>>>> = Mutex::new((0..nc).map(|_| None).collect());
    *WATCH.lock().unwrap() = Some(sim.clone());
    std::thread::scope(|s| {
        let mut clients: Vec<Option<Box<dyn FnOnce() + Send + 'a>>> =
            clients.into_iter().map(Some).collect();
        for tid in 0..total {
            let sim = sim.clone();
            let client = if tid < nc { clients[tid].take() } else { None };
            let (ready, panics) = (&ready, &panics);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let worker = (tid >= nc).then(|| tid - nc);
                    {
                        let mut g = sim.lock();
                        g.threads[tid].handle = Some(std::thread::current());
                        g.threads[tid].os_tid = os_tid();
                    }
                    CUR.with(|c| {
                        *c.borrow_mut() = Some(Ctx { sim: sim.clone(), tid, worker })
                    });
                    GAP.with(|g| g.set(sim.cfg.field_gap));
                    COUNTDOWN.with(|c| {
                        c.set(if sim.cfg.field_gap == 0 { u32::MAX } else { sim.cfg.field_gap })
                    });
                    ready.fetch_add(1, Ordering::SeqCst);
                    sim.main.unpark();
                    sim.await_baton(tid);
                    match client {
                        Some(f) => {
                            let r = catch_unwind(AssertUnwindSafe(f));
                            if let Err(p) = r {
                                panics.lock().unwrap()[tid] = Some(p);
                            }
                            sim.reclaim(tid);
                            {
                                let mut g = sim.lock();
                                g.clients_left -= 1;
                                if g.clients_left == 0 {
                                    g.shutdown = true;
                                }
                            }
                            sim.retire(tid);
                        }
                        None => sim.worker_main(tid, worker.unwrap()),
                    }
                    CUR.with(|c| *c.borrow_mut() = None);
                })
                .expect("spawn simulated thread");
        }
        while ready.load(Ordering::SeqCst) < total {
            std::thread::park_timeout(std::time::Duration::from_millis(5));
        }
        sim.started.store(true, Ordering::SeqCst);
        {
            let g = sim.lock();
            let (mut g, first) = sim.choose(g, None);
            g.holder = first;
            sim.holder.store(first, Ordering::SeqCst);
            if let Some(h) = &g.threads[first].handle {
                h.unpark();
            }
        }
        while !sim.done.load(Ordering::SeqCst) {
            std::thread::park_timeout(std::time::Duration::from_millis(50));
        }
    });
    *WATCH.lock().unwrap() = None;
    let g = sim.lock();
    let mut rep = g.report.clone();
    rep.steps = g.steps;
    rep.schedule_hash = g.hash;
    drop(g);
    (rep, panics.into_inner().unwrap())
}

/// Steps and schedule of the simulation the current thread belongs to.
pub fn now() -> u64 {
    with_ctx(|c| c.map_or(0, |c| c.sim.lock().steps))
}

fn with_ctx<R>(f: impl FnOnce(Option<&Ctx>) -> R) -> R {
    CUR.with(|c| {
        let b = c.borrow();
        f(b.as_ref())
    })
}

fn ctx() -> Option<(Arc<Sim>, usize, Option<usize>)> {
    with_ctx(|c| c.map(|c| (c.sim.clone(), c.tid, c.worker)))
}

/// Whether the current thread belongs to a simulation.
pub fn active() -> bool {
    with_ctx(|c| c.is_some())
}

/// Runs `f` without field-operation yield points (harness oracles).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    NOYIELD.with(|n| n.set(n.get() + 1));
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            NOYIELD.with(|n| n.set(n.get() - 1));
        }
    }
    let _g = G;
    f()
}

/// Explicit yield point.
pub fn yield_point() {
    if NOYIELD.with(|n| n.get()) > 0 {
        return;
    }
    if let Some((sim, tid, _)) = ctx() {
        sim.yield_now(tid, 3);
    }
}

/// Called by the field shim on every multiplication.
#[inline(always)]
pub fn field_op() {
    COUNTDOWN.with(|c| {
        let v = c.get();
        if v == 0 {
            field_op_slow()
        } else {
            c.set(v - 1)
        }
    })
}

#[cold]
fn field_op_slow() {
    let gap = GAP.with(|g| g.get());
    if gap == 0 {
        COUNTDOWN.with(|c| c.set(u32::MAX));
        return;
    }
    COUNTDOWN.with(|c| c.set(gap));
    if std::thread::panicking() {
        return;
    }
    yield_point();
}

/// Index of the current pool worker.
pub fn current_thread_index() -> Option<usize> {
    with_ctx(|c| c.and_then(|c| c.worker))
}

/// Number of pool workers (1 outside a simulation).
pub fn current_num_threads() -> usize {
    with_ctx(|c| c.map_or(1, |c| c.sim.cfg.workers.max(1)))
}

// ---------------------------------------------------------------------------
// Fork-join primitives
// ---------------------------------------------------------------------------

/// Runs `f` on a pool worker, as a pool does for calls from outside it.
fn in_worker<R: Send>(f: impl FnOnce(&Arc<Sim>, usize, usize) -> R + Send) -> R {
    let (sim, tid, worker) = ctx().expect("in a simulation");
    if let Some(w) = worker {
        return f(&sim, tid, w);
    }
    let slot: Mutex<Option<std::thread::Result<R>>> = Mutex::new(None);
    let latch = Latch::new();
    {
        let (slot, latch) = (&slot, latch.clone());
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let (sim, tid, worker) = ctx().expect("in a simulation");
            let r = catch_unwind(AssertUnwindSafe(|| f(&sim, tid, worker.unwrap())));
            *slot.lock().unwrap() = Some(r);
            latch.set();
        });
        // SAFETY: this frame waits for the latch before returning.
        let job: Job = unsafe { std::mem::transmute(job) };
        sim.inject(job);
    }
    sim.wait_latch(tid, None, &latch);
    match slot.into_inner().unwrap().expect("job ran") {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

/// Potentially parallel evaluation of two closures.
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !active() {
        return (a(), b());
    }
    in_worker(move |sim, tid, w| {
        let slot: Mutex<Option<std::thread::Result<RB>>> = Mutex::new(None);
        let latch = Latch::new();
        let id = {
            let (slot, latch) = (&slot, latch.clone());
            let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                let r = catch_unwind(AssertUnwindSafe(b));
                *slot.lock().unwrap() = Some(r);
                latch.set();
            });
            // SAFETY: this frame waits for the latch before returning.
            let job: Job = unsafe { std::mem::transmute(job) };
            sim.push_local(w, job)
        };
        sim.yield_now(tid, 4);
        let ra = catch_unwind(AssertUnwindSafe(a));
        // Pop local jobs until B is found or someone else has taken it.
        while !latch.get() {
            sim.reclaim(tid);
            let j = {
                let mut g = sim.lock();
                let mine = g.deques[w].iter().any(|q| q.id == id);
                if mine {
                    g.deques[w].pop_back()
                } else {
                    None
                }
            };
            match j {
                Some(j) => sim.execute(tid, j),
                None => sim.wait_latch(tid, Some(w), &latch),
            }
        }
        let rb = slot.into_inner().unwrap().expect("job ran");
        match (ra, rb) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(p), _) => resume_unwind(p),
            (_, Err(p)) => resume_unwind(p),
        }
    })
}

/// A fork-join scope.
pub struct Scope<'scope> {
    pending: AtomicUsize,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
    done: Mutex<Option<Latch>>,
    local: Mutex<VecDeque<Job>>,
    fifo: bool,
    marker: std::marker::PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}

struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> *const T {
        self.0
    }
}

impl<'scope> Scope<'scope> {
    fn new(fifo: bool) -> Self {
        Scope {
            pending: AtomicUsize::new(1),
            panic: Mutex::new(None),
            done: Mutex::new(Some(Latch::new())),
            local: Mutex::new(VecDeque::new()),
            fifo,
            marker: std::marker::PhantomData,
        }
    }

    fn complete_one(&self) {
        // The frame owning `self` may go away once the latch is set.
        let latch = self.done.lock().unwrap().clone();
        if self.pending.fetch_sub(1, Ordering::SeqCst) == 1 {
            if let Some(l) = latch {
                l.set();
            }
        }
    }

    /// Spawns a job into the scope.
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.pending.fetch_add(1, Ordering::SeqCst);
        let this = Ptr(self as *const Scope<'scope>);
        let job: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
            // SAFETY: the scope outlives every job spawned into it.
            let this = unsafe { &*this.get() };
            if let Err(p) = catch_unwind(AssertUnwindSafe(|| body(this))) {
                let mut slot = this.panic.lock().unwrap();
                if slot.is_none() {
                    *slot = Some(p);
                }
            }
            this.complete_one();
        });
        // SAFETY: `scope` waits for every job before returning.
        let job: Job = unsafe { std::mem::transmute(job) };
        match ctx() {
            Some((sim, tid, Some(w))) => {
                sim.push_local(w, job);
                sim.yield_now(tid, 5);
            }
            Some((sim, tid, None)) => {
                sim.inject(job);
                sim.yield_now(tid, 5);
            }
            None => self.local.lock().unwrap().push_back(job),
        }
    }

    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.spawn(body)
    }

    pub fn spawn_broadcast<BODY>(&self, _body: BODY) {
        unimplemented!("spawn_broadcast is outside the simulated pool")
    }
}

fn scope_impl<'scope, OP, R>(op: OP, fifo: bool) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::new(fifo);
    let latch = s.done.lock().unwrap().clone().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.complete_one();
    match ctx() {
        Some((sim, tid, w)) => sim.wait_latch(tid, w, &latch),
        None => loop {
            let j = {
                let mut q = s.local.lock().unwrap();
                if s.fifo {
                    q.pop_front()
                } else {
                    q.pop_back()
                }
            };
            match j {
                Some(j) => j(),
                None => break,
            }
        },
    }
    let p = s.panic.lock().unwrap().take();
    match (r, p) {
        (Err(p), _) => resume_unwind(p),
        (Ok(_), Some(p)) => resume_unwind(p),
        (Ok(r), None) => r,
    }
}

/// Creates a scope, runs `op` in it on a pool worker, and waits for every job.
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    if !active() {
        return scope_impl(op, false);
    }
    in_worker(move |_, _, _| scope_impl(op, false))
}

pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    if !active() {
        return scope_impl(op, true);
    }
    in_worker(move |_, _, _| scope_impl(op, true))
}

/// A scope whose body runs on the calling thread.
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    scope_impl(op, false)
}

/// Runs `op` on a pool worker.
pub fn install<OP, R>(op: OP) -> R
where
    OP: FnOnce() -> R + Send,
    R: Send,
{
    if !active() {
        return op();
    }
    in_worker(move |_, _, _| op())
}

/// Applies `f` to every item, in parallel by recursive halving; results come
/// back in order.
pub fn par_map<T: Send, R: Send>(items: Vec<T>, f: &(impl Fn(T) -> R + Sync)) -> Vec<R> {
    if !active() || items.len() <= 1 {
        return items.into_iter().map(f).collect();
    }
    let mut items = items;
    let right = items.split_off(items.len() / 2);
    let (mut l, r) = join(|| par_map(items, f), || par_map(right, f));
    l.extend(r);
    l
}
