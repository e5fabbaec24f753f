//! A fault inside a witness computation fails exactly the call it belongs to.

use crate::circ::*;
use crate::engine::*;
use crate::props::c01::{build, field, poly_eq, poly_hash};
use ragu_circuits::{
    CircuitExt,
    polynomials::{ProductionRank, Rank, TestRank, sparse},
};
use ragu_core::Error;
use ragu_pasta::Fp;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::Rng;
use std::error::Error as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

/// A fault at the `at`-th witness computation (modulo their number).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub at: u64,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    pub program: usize,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub inputs: Vec<u64>,
    pub programs: Vec<Node>,
    pub clients: Vec<Vec<Call>>,
    pub small_rank: bool,
}

pub struct C02;

/// Whether `e`, or anything in its source chain, is the injected failure.
pub fn carries(e: &Error, token: u64) -> bool {
    if let Error::InvalidWitness(b) = e {
        if b.downcast_ref::<Injected>().is_some_and(|i| i.0 == token) {
            return true;
        }
    }
    let mut s = e.source();
    while let Some(x) = s {
        if x.downcast_ref::<Injected>().is_some_and(|i| i.0 == token) {
            return true;
        }
        s = x.source();
    }
    false
}

type Ret<R> = (Result<Result<(sparse::Polynomial<Fp, R>, Fp), Error>, String>, Vec<(u64, FaultKind)>);

fn execute<R: Rank>(case: &Case) -> Outcome {
    let mut o = Outcome::default();
    let w: Vec<Fp> = case.inputs.iter().map(|v| Fp::from(*v)).collect();
    let progs: Vec<Program> = case
        .programs
        .iter()
        .map(|n| Program {
            node: Arc::new(n.clone()),
            env: Arc::new(Env { record_sites: true, ..Env::default() }),
            inputs: w.len(),
        })
        .collect();
    let Some((reg, progs)) = build::<R>(&progs, &mut o) else { return o };
    let mut rng = Rng::new(case.sim.seed ^ 0xA1FA);
    let alpha = field(&mut rng);
    let mut refs = Vec::new();
    for (p, h) in &progs {
        p.env.armed.store(true, Ordering::SeqCst);
        match p.trace(&w).and_then(|t| reg.assemble(&t.into_parts().0, *h, alpha)) {
            Ok(rx) => refs.push(rx),
            Err(e) => {
                o.fail("sequential-error", format!("sequential trace failed: {e}"));
                return o;
            }
        }
    }
    // Place the faults on the sites the reference run visited.
    let calls: Vec<Vec<(usize, Program)>> = case
        .clients
        .iter()
        .map(|c| {
            c.iter()
                .map(|call| {
                    let k = call.program % progs.len();
                    let sites = progs[k].0.env.sites.lock().unwrap().clone();
                    let mut env = Env::default();
                    for f in &call.faults {
                        if !sites.is_empty() {
                            env.faults.insert(sites[f.at as usize % sites.len()], f.kind);
                        }
                    }
                    env.armed.store(true, Ordering::SeqCst);
                    (k, Program { env: Arc::new(env), ..progs[k].0.clone() })
                })
                .collect()
        })
        .collect();
    let got: Mutex<Vec<(usize, usize, usize, bool, Ret<R>)>> = Mutex::new(Vec::new());
    let mut clients: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
    for (c, work) in calls.iter().enumerate() {
        let (progs, reg, got, w) = (&progs, &reg, &got, &w);
        clients.push(Box::new(move || {
            for (j, (k, p)) in work.iter().enumerate() {
                let attempt = |p: &Program| {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let (t, aux) = p.trace(w)?.into_parts();
                        Ok((reg.assemble(&t, progs[*k].1, alpha)?, aux))
                    }))
                    .map_err(|e| panic_text(&*e));
                    let fired = p.env.fired.lock().unwrap().clone();
                    (r, fired)
                };
                let r = attempt(p);
                got.lock().unwrap().push((c, j, *k, false, r));
                if !p.env.faults.is_empty() {
                    // The transient fault is over: the same call again.
                    let healed = Env::default();
                    healed.armed.store(true, Ordering::SeqCst);
                    let r = attempt(&Program { env: Arc::new(healed), ..p.clone() });
                    got.lock().unwrap().push((c, j, *k, true, r));
                }
            }
        }));
    }
    let want: usize = calls.iter().flatten().map(|(_, p)| 1 + !p.env.faults.is_empty() as usize).sum();
    let (rep, panics) = simrt::run(case.sim.config(), clients);
    o.absorb_report(&rep);
    o.decisions = rep.decisions.clone();
    for p in panics.into_iter().flatten() {
        o.fail("escaped-panic", format!("a panic escaped the call: {}", panic_text(&*p)));
    }
    let mut got = got.into_inner().unwrap();
    if o.violations.is_empty() && got.len() != want {
        o.fail("lost-call", format!("{} of {want} calls returned", got.len()));
    }
    got.sort_by_key(|g| (g.0, g.1, g.3));
    for (c, j, k, retry, (r, fired)) in got {
        let who = format!("caller {c}, call {j}{}, program {k}", if retry { " (retry)" } else { "" });
        let errs: Vec<u64> = fired.iter().filter(|f| f.1 == FaultKind::Error).map(|f| f.0).collect();
        let pans: Vec<u64> = fired.iter().filter(|f| f.1 == FaultKind::Panic).map(|f| f.0).collect();
        o.count("fault.witness_error", errs.len() as u64);
        o.count("fault.witness_panic", pans.len() as u64);
        if fired.len() > 1 {
            o.count("probe.several_faults_one_call", 1);
        }
        if !fired.is_empty() {
            o.nontrivial = true;
            o.distinct.push(fired.iter().fold(rep.schedule_hash, |h, f| hash2(h, f.0)));
        }
        match r {
            Ok(Ok((rx, aux))) => {
                o.mix(poly_hash(&rx));
                if !fired.is_empty() {
                    o.fail("swallowed-fault", format!("{who}: {} fault(s) fired yet the call succeeded", fired.len()));
                }
                if aux != progs[k].0.expected(&w) {
                    o.fail("wrong-aux", format!("{who}: auxiliary data differs"));
                }
                if !poly_eq(&rx, &refs[k]) {
                    o.fail("partial-trace", format!("{who}: trace differs from the fault-free one"));
                }
                o.count("probe.ok", 1);
            }
            Ok(Err(e)) => {
                o.mix(hash_str(&e.to_string()));
                if errs.is_empty() {
                    o.fail(
                        if pans.is_empty() { "spurious-error" } else { "panic-became-error" },
                        format!("{who}: no injected error, but got {e}"),
                    );
                } else if !errs.iter().any(|t| carries(&e, *t)) {
                    o.fail("lost-error-identity", format!("{who}: injected error came back as {e:?}"));
                }
                o.count("probe.err", 1);
            }
            Err(p) => {
                o.mix(hash_str(&p));
                if pans.is_empty() {
                    o.fail("spurious-panic", format!("{who}: no injected panic, but: {p}"));
                } else if !pans.iter().any(|t| p == Injected(*t).to_string()) {
                    o.fail("lost-panic-identity", format!("{who}: injected panic came back as: {p}"));
                }
                o.count("probe.panic", 1);
            }
        }
    }
    o
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "as C01, plus 0-3 faults (error or panic) per call placed uniformly on the witness computations the program performs (including those of predicted routines running as pool tasks), each failed call retried without faults; non-trivial when a fault fired; distinct by schedule hash and fault placement"
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let small = rng.below(4) != 0;
        let np = 1 + rng.below(2) as usize;
        let big = tier == Tier::Thorough && rng.below(4) == 0;
        let mut programs = Vec::new();
        for _ in 0..np {
            let sh = if small {
                Shape { max_depth: 3, max_nodes: 6, max_ops: 5, known_pct: [50, 80, 100][rng.below(3) as usize] }
            } else {
                Shape {
                    max_depth: 2 + rng.below(4) as u32,
                    max_nodes: if big { 60 } else { 18 },
                    max_ops: 9,
                    known_pct: [30, 70, 100][rng.below(3) as usize],
                }
            };
            let mut left = sh.max_nodes;
            programs.push(gen_node(&mut rng, &sh, 0, &mut left));
        }
        let nc = [1, 1, 2, 3][rng.below(4) as usize];
        let kinds = rng.below(3);
        let clients = (0..nc)
            .map(|_| {
                (0..1 + rng.below(2))
                    .map(|_| Call {
                        program: rng.below(np as u64) as usize,
                        faults: (0..[0, 1, 1, 1, 2, 3][rng.below(6) as usize])
                            .map(|_| Fault {
                                at: rng.below(1 << 20),
                                kind: match kinds {
                                    0 => FaultKind::Error,
                                    1 => FaultKind::Panic,
                                    _ if rng.below(2) == 0 => FaultKind::Error,
                                    _ => FaultKind::Panic,
                                },
                            })
                            .collect(),
                    })
                    .collect()
            })
            .collect();
        let inputs = (0..1 + rng.below(4)).map(|_| rng.below(1 << 40)).collect();
        serde_json::to_value(Case { sim: SimCase::draw(&mut rng), inputs, programs, clients, small_rank: small }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).expect("case");
        if case.small_rank { execute::<TestRank>(&case) } else { execute::<ProductionRank>(&case) }
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = shrink_sim(case);
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let mut add = |d: Case| v.push(serde_json::to_value(d).unwrap());
        if c.clients.len() > 1 {
            for i in 0..c.clients.len() {
                let mut d = c.clone();
                d.clients.remove(i);
                add(d);
            }
        }
        for i in 0..c.clients.len() {
            for j in 0..c.clients[i].len() {
                if c.clients[i].len() > 1 {
                    let mut d = c.clone();
                    d.clients[i].remove(j);
                    add(d);
                }
                for f in 0..c.clients[i][j].faults.len() {
                    let mut d = c.clone();
                    d.clients[i][j].faults.remove(f);
                    add(d);
                }
            }
        }
        for i in 0..c.programs.len() {
            if c.programs.len() > 1 {
                let mut d = c.clone();
                d.programs = vec![c.programs[i].clone()];
                add(d);
            }
            for s in c.programs[i].shrinks() {
                let mut d = c.clone();
                d.programs[i] = s;
                add(d);
            }
        }
        v
    }
}
