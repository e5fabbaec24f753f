//! Trace evaluation does not depend on the schedule.

use crate::circ::*;
use crate::engine::*;
use ff::{Field, PrimeField};
use ragu_circuits::{
    CircuitExt,
    polynomials::{ProductionRank, Rank, TestRank, sparse},
};
use ragu_core::Error;
use ragu_pasta::Fp;
use ragu_testing::registry::{Handle, TestRegistry, TestRegistryBuilder};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::Rng;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub inputs: Vec<u64>,
    pub programs: Vec<Node>,
    /// For each caller thread, the programs it traces, in order.
    pub clients: Vec<Vec<usize>>,
    pub small_rank: bool,
}

pub struct C01;

pub fn fe_bytes(f: &Fp) -> [u8; 32] {
    f.to_repr()
}

pub fn poly_hash<R: Rank>(p: &sparse::Polynomial<Fp, R>) -> u64 {
    p.iter_coeffs().fold(17, |h, c| hash_bytes(h, &fe_bytes(&c)))
}

pub fn poly_eq<R: Rank>(a: &sparse::Polynomial<Fp, R>, b: &sparse::Polynomial<Fp, R>) -> bool {
    a.iter_coeffs().eq(b.iter_coeffs())
}

/// The circuit identity for one assembled trace, at `y`, `z`.
pub fn identity<R: Rank>(
    reg: &TestRegistry<'_, Fp, R>,
    h: Handle,
    rx: &sparse::Polynomial<Fp, R>,
    ky: Fp,
    y: Fp,
    z: Fp,
) -> bool {
    let mut b = rx.clone();
    b.dilate(z);
    b.add_assign(&reg.y(h, y));
    b.add_assign(&R::tz(z));
    rx.revdot(&b) == ky
}

pub fn field(rng: &mut Rng) -> Fp {
    let mut f = Fp::from(rng.next());
    for _ in 0..3 {
        f = f * Fp::from(u64::MAX) + Fp::from(rng.next());
    }
    f
}

pub type Built<'a, R> = (TestRegistry<'a, Fp, R>, Vec<(Program, Handle)>);

/// Registers the programs; programs over the bound are dropped.
pub fn build<R: Rank>(progs: &[Program], o: &mut Outcome) -> Option<Built<'static, R>> {
    let mut keep = Vec::new();
    let mut b = TestRegistryBuilder::<Fp, R>::new();
    for p in progs {
        // Registration consumes the builder on failure: probe separately.
        let mut probe = TestRegistryBuilder::<Fp, R>::new();
        match probe.register_circuit(p.clone()) {
            Ok(_) => keep.push((p.clone(), b.register_circuit(p.clone()).expect("probe succeeded"))),
            Err(Error::GateBoundExceeded { .. }) | Err(Error::ConstraintBoundExceeded { .. }) => {
                o.count("probe.program_over_bound", 1);
                keep.push((p.clone(), b.register_circuit(Program {
                    node: Arc::new(Node { known: false, shape: 0, ty: 0, ops: vec![Op::Alloc(1)] }),
                    env: p.env.clone(),
                    inputs: p.inputs,
                }).expect("tiny program")));
                let l = keep.len() - 1;
                keep[l].0.node = Arc::new(Node { known: false, shape: 0, ty: 0, ops: vec![Op::Alloc(1)] });
            }
            Err(e) => {
                o.fail("registration-error", format!("registration failed: {e}"));
                return None;
            }
        }
    }
    match b.finalize() {
        Ok(r) => Some((r, keep)),
        Err(e) => {
            o.fail("registration-error", format!("finalize failed: {e}"));
            None
        }
    }
}

fn execute<R: Rank>(case: &Case) -> Outcome {
    let mut o = Outcome::default();
    let w: Vec<Fp> = case.inputs.iter().map(|v| Fp::from(*v)).collect();
    let progs: Vec<Program> = case
        .programs
        .iter()
        .map(|n| Program { node: Arc::new(n.clone()), env: Arc::new(Env::default()), inputs: w.len() })
        .collect();
    let Some((reg, progs)) = build::<R>(&progs, &mut o) else { return o };
    let stray: u64 = progs.iter().map(|p| p.0.env.stray.load(Ordering::SeqCst)).sum();
    if stray > 0 {
        o.fail("stray-witness", format!("{stray} witness closures ran during registration"));
    }
    let mut rng = Rng::new(case.sim.seed ^ 0xA1FA);
    let alpha = field(&mut rng);
    // Sequential reference, no simulation.
    let mut refs = Vec::new();
    for (p, h) in &progs {
        p.env.armed.store(true, Ordering::SeqCst);
        let (t, aux) = match p.trace(&w) {
            Ok(t) => t.into_parts(),
            Err(e) => {
                o.fail("sequential-error", format!("sequential trace failed: {e}"));
                return o;
            }
        };
        if aux != p.expected(&w) {
            o.fail("wrong-aux", "auxiliary data differs from the reference evaluation");
        }
        let rx = match reg.assemble(&t, *h, alpha) {
            Ok(rx) => rx,
            Err(e) => {
                o.fail("assemble-error", format!("{e}"));
                return o;
            }
        };
        refs.push(rx);
    }
    // The reference itself satisfies the circuit for the expected output.
    for ((p, h), rx) in progs.iter().zip(&refs) {
        let (y, z) = (field(&mut rng), field(&mut rng));
        let ky = p.ky(p.expected(&w), y).expect("ky");
        if !identity(&reg, *h, rx, ky, y, z) {
            o.fail("sequential-unsatisfied", "sequential trace does not satisfy the circuit");
            return o;
        }
    }
    // Concurrent callers under the simulated pool.
    let got: Mutex<Vec<(usize, usize, Result<(sparse::Polynomial<Fp, R>, Fp), String>)>> = Mutex::new(Vec::new());
    let mut clients: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
    for (c, work) in case.clients.iter().enumerate() {
        let (progs, reg, got, w) = (&progs, &reg, &got, &w);
        clients.push(Box::new(move || {
            for &k in work {
                let (p, h) = &progs[k % progs.len()];
                let r = match p.trace(w) {
                    Ok(t) => {
                        let (t, aux) = t.into_parts();
                        match reg.assemble(&t, *h, alpha) {
                            Ok(rx) => Ok((rx, aux)),
                            Err(e) => Err(format!("assemble: {e}")),
                        }
                    }
                    Err(e) => Err(format!("trace: {e}")),
                };
                got.lock().unwrap().push((c, k % progs.len(), r));
            }
        }));
    }
    let (rep, panics) = simrt::run(case.sim.config(), clients);
    o.absorb_report(&rep);
    o.decisions = rep.decisions.clone();
    for p in panics.into_iter().flatten() {
        o.fail("panic", format!("a caller panicked: {}", panic_text(&*p)));
    }
    let got = got.into_inner().unwrap();
    let want: usize = case.clients.iter().map(|c| c.len()).sum();
    if o.violations.is_empty() && got.len() != want {
        o.fail("lost-call", format!("{} of {want} calls returned", got.len()));
    }
    let known: u64 = progs.iter().map(|p| p.0.node.census().1).sum();
    o.count("probe.known_routines", known);
    o.count("probe.traces", got.len() as u64);
    o.count("probe.concurrent_callers", (case.clients.len() > 1) as u64);
    for (c, k, r) in got {
        match r {
            Err(e) => o.fail("spurious-error", format!("caller {c}, program {k}: {e}")),
            Ok((rx, aux)) => {
                o.mix(poly_hash(&rx));
                if aux != progs[k].0.expected(&w) {
                    o.fail("wrong-aux", format!("caller {c}, program {k}: auxiliary data differs"));
                }
                if !poly_eq(&rx, &refs[k]) {
                    o.fail("schedule-dependent", format!("caller {c}, program {k}: trace differs from the sequential one"));
                } 
            }
        }
    }
    o.nontrivial = known > 0 && rep.preemptions > 0;
    o.distinct.push(rep.schedule_hash);
    o
}

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "a seed draws 1-3 random programs (trees of predicted/unpredicted routines over random arithmetic), 1-3 concurrent caller threads, a pool of 1-13 simulated workers and a scheduling policy; non-trivial when some routine is predicted (hence spawned as a task) and at least one preemption happened; distinct by schedule hash and case"
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let small = rng.below(3) != 0;
        let np = 1 + rng.below(3) as usize;
        let big = tier == Tier::Thorough && rng.below(4) == 0;
        let mut programs = Vec::new();
        for _ in 0..np {
            let sh = if small {
                Shape { max_depth: 3, max_nodes: 6, max_ops: 5, known_pct: [50, 80, 100][rng.below(3) as usize] }
            } else {
                Shape {
                    max_depth: 2 + rng.below(4) as u32,
                    max_nodes: if big { 60 } else { 18 },
                    max_ops: 9,
                    known_pct: [30, 70, 100][rng.below(3) as usize],
                }
            };
            let mut left = sh.max_nodes;
            programs.push(gen_node(&mut rng, &sh, 0, &mut left));
        }
        let nc = [1, 1, 2, 3][rng.below(4) as usize];
        let clients =
            (0..nc).map(|_| (0..1 + rng.below(2)).map(|_| rng.below(np as u64) as usize).collect()).collect();
        let inputs = (0..1 + rng.below(4)).map(|_| rng.below(1 << 40)).collect();
        let case = Case { sim: SimCase::draw(&mut rng), inputs, programs, clients, small_rank: small };
        serde_json::to_value(case).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).expect("case");
        if case.small_rank { execute::<TestRank>(&case) } else { execute::<ProductionRank>(&case) }
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = shrink_sim(case);
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        if c.clients.len() > 1 {
            for i in 0..c.clients.len() {
                let mut d = c.clone();
                d.clients.remove(i);
                v.push(serde_json::to_value(d).unwrap());
            }
        }
        for i in 0..c.clients.len() {
            if c.clients[i].len() > 1 {
                let mut d = c.clone();
                d.clients[i].pop();
                v.push(serde_json::to_value(d).unwrap());
            }
        }
        if c.programs.len() > 1 {
            for i in 0..c.programs.len() {
                let mut d = c.clone();
                d.programs = vec![c.programs[i].clone()];
                v.push(serde_json::to_value(d).unwrap());
            }
        }
        for i in 0..c.programs.len() {
            for s in c.programs[i].shrinks() {
                let mut d = c.clone();
                d.programs[i] = s;
                v.push(serde_json::to_value(d).unwrap());
            }
        }
        v
    }
}
