//! A registered circuit accepts exactly the traces that satisfy it.

use super::c01::{field, identity, poly_eq, poly_hash};
use crate::engine::*;
use crate::raw::*;
use ff::Field;
use ragu_circuits::{
    CircuitExt,
    polynomials::{ProductionRank, Rank, TestRank, sparse},
};
use ragu_core::Error;
use ragu_pasta::Fp;
use ragu_testing::registry::{Handle, TestRegistry, TestRegistryBuilder};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::Rng;
use std::sync::{Arc, Mutex};

/// How one prover departs from the circuit.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Lie {
    Honest,
    /// One constraint off.
    Lin(u64),
    /// Two constraints off by opposite amounts.
    LinPair(u64, u64),
    /// One product off.
    Gate(u64),
    /// Two products off by opposite amounts.
    GatePair(u64, u64),
    /// A gate whose third and fourth wires are both non-zero.
    Fourth(u64),
    /// One public value off.
    Out(u64),
    /// Both public values off by opposite amounts.
    OutPair,
    /// A public value and a constraint off by opposite amounts.
    OutLin(u64, u64),
    /// A product and a constraint off by opposite amounts.
    GateLin(u64, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub programs: Vec<RNode>,
    /// (prover thread, program, lie, seed of the rest)
    pub trials: Vec<(u8, u8, Lie, u64)>,
    pub small_rank: bool,
}

pub struct C16;

fn execute<R: Rank>(case: &Case) -> Outcome {
    let mut o = Outcome::default();
    let mut rng = Rng::new(case.sim.seed ^ 0xC16);
    let mut b = TestRegistryBuilder::<Fp, R>::new();
    let mut progs: Vec<(Arc<RNode>, Handle, Plan)> = Vec::new();
    for n in &case.programs {
        let mk = |n: &RNode| {
            let node = Arc::new(n.clone());
            (node.clone(), Raw { node, sc: Arc::new(Script::default()) })
        };
        let (mut node, mut c) = mk(n);
        // Registration consumes the builder on failure: probe separately.
        match TestRegistryBuilder::<Fp, R>::new().register_circuit(c.clone()) {
            Ok(_) => {}
            Err(Error::GateBoundExceeded { .. }) | Err(Error::ConstraintBoundExceeded { .. }) => {
                o.count("probe.program_over_bound", 1);
                (node, c) = mk(&RNode { known: false, shape: 0, ty: 0, ops: vec![ROp::Alloc, ROp::Pin(vec![(0, 0)], 0)] });
            }
            Err(e) => {
                o.fail("registration-error", format!("{e}"));
                return o;
            }
        }
        let h = match b.register_circuit(c) {
            Ok(h) => h,
            Err(e) => {
                o.fail("registration-error", format!("{e}"));
                return o;
            }
        };
        let p = plan(&node).expect("plan");
        progs.push((node, h, p));
    }
    let reg: TestRegistry<'_, Fp, R> = match b.finalize() {
        Ok(r) => r,
        Err(e) => {
            o.fail("registration-error", format!("finalize: {e}"));
            return o;
        }
    };
    // Write every prover's script.
    struct Job {
        client: u8,
        prog: usize,
        lie: Lie,
        raw: Raw,
        inst: [Fp; 2],
        ok: bool,
        alpha: Fp,
    }
    let mut jobs: Vec<Job> = Vec::new();
    for (client, prog, lie, seed) in &case.trials {
        let prog = *prog as usize % progs.len();
        let (node, _, p) = &progs[prog];
        let mut l = Lies::default();
        let (mut d0, mut d1) = (Fp::ZERO, Fp::ZERO);
        let delta = Fp::from(1 + seed % 97);
        let (nl, ng) = (p.lins.len() as u64, p.gates.len() as u64);
        let mut eff = lie.clone();
        match lie {
            Lie::Lin(i) | Lie::OutLin(_, i) | Lie::GateLin(_, i) if nl > 0 => {
                l.lins.insert((i % nl) as usize, delta);
            }
            Lie::LinPair(i, j) if nl > 1 => {
                let (i, j) = ((i % nl) as usize, (j % nl) as usize);
                let j = if i == j { (j + 1) % nl as usize } else { j };
                l.lins.insert(i, delta);
                l.lins.insert(j, -delta);
            }
            _ => {}
        }
        match lie {
            Lie::Gate(i) | Lie::GateLin(i, _) if ng > 0 => {
                l.gates.insert((i % ng) as usize, -delta);
            }
            Lie::GatePair(i, j) if ng > 1 => {
                let (i, j) = ((i % ng) as usize, (j % ng) as usize);
                let j = if i == j { (j + 1) % ng as usize } else { j };
                l.gates.insert(i, delta);
                l.gates.insert(j, -delta);
            }
            Lie::Fourth(i) if !p.fourth.is_empty() => {
                l.ds.insert(p.fourth[*i as usize % p.fourth.len()], delta);
            }
            _ => {}
        }
        match lie {
            Lie::Out(0) => d0 = delta,
            Lie::Out(_) => d1 = delta,
            Lie::OutPair => (d0, d1) = (delta, -delta),
            Lie::OutLin(k, _) => {
                if k % 2 == 0 {
                    d0 = delta
                } else {
                    d1 = delta
                }
            }
            _ => {}
        }
        let ok = l.lins.is_empty() && l.gates.is_empty() && l.ds.is_empty() && d0 == Fp::ZERO && d1 == Fp::ZERO;
        if ok {
            eff = Lie::Honest;
        }
        let (vals, outs, _) = p.script(*seed, &l);
        jobs.push(Job {
            client: *client,
            prog,
            lie: eff,
            raw: Raw { node: node.clone(), sc: Arc::new(Script { vals, ..Script::default() }) },
            inst: [outs[0] + d0, outs[1] + d1],
            ok,
            alpha: field(&mut rng),
        });
    }
    let ncl = jobs.iter().map(|j| j.client).max().unwrap_or(0) as usize + 1;
    let got: Mutex<Vec<(usize, Result<sparse::Polynomial<Fp, R>, String>)>> = Mutex::default();
    let mut clients: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
    for c in 0..ncl {
        let (jobs, reg, got, progs) = (&jobs, &reg, &got, &progs);
        clients.push(Box::new(move || {
            for (k, j) in jobs.iter().enumerate().filter(|(_, j)| j.client as usize == c) {
                let r = j
                    .raw
                    .trace(())
                    .and_then(|t| reg.assemble(&t.into_output(), progs[j.prog].1, j.alpha))
                    .map_err(|e| e.to_string());
                got.lock().unwrap().push((k, r));
            }
        }));
    }
    let (rep, panics) = simrt::run(case.sim.config(), clients);
    o.absorb_report(&rep);
    o.decisions = rep.decisions.clone();
    for p in panics.into_iter().flatten() {
        o.fail("panic", format!("a prover panicked: {}", panic_text(&*p)));
    }
    let mut got = got.into_inner().unwrap();
    got.sort_by_key(|g| g.0);
    if o.violations.is_empty() && got.len() != jobs.len() {
        o.fail("lost-call", format!("{} of {} traces returned", got.len(), jobs.len()));
    }
    let mut lied = 0;
    for (k, r) in &got {
        let j = &jobs[*k];
        let rx = match r {
            Ok(rx) => rx,
            Err(e) => {
                o.fail("spurious-error", format!("trial {k} ({:?}): {e}", j.lie));
                continue;
            }
        };
        o.mix(poly_hash(rx));
        let (y, z) = (field(&mut rng), field(&mut rng));
        let ky = match j.raw.ky(j.inst, y) {
            Ok(v) => v,
            Err(e) => {
                o.fail("spurious-error", format!("ky: {e}"));
                continue;
            }
        };
        let acc = identity(&reg, progs[j.prog].1, rx, ky, y, z);
        match (j.ok, acc) {
            (true, false) => o.fail("rejected-satisfied", format!("trial {k}: a trace satisfying program {} is rejected", j.prog)),
            (false, true) => {
                o.fail("accepted-unsatisfied", format!("trial {k}: program {} accepts {:?}", j.prog, j.lie))
            }
            _ => {}
        }
        if j.ok {
            o.count("honest", 1);
        } else {
            lied += 1;
            o.count(
                match j.lie {
                    Lie::Lin(_) => "fault.constraint",
                    Lie::LinPair(..) => "fault.constraint_pair",
                    Lie::Gate(_) => "fault.product",
                    Lie::GatePair(..) => "fault.product_pair",
                    Lie::Fourth(_) => "fault.fourth_wire",
                    Lie::Out(_) => "fault.public_value",
                    Lie::OutPair => "fault.public_pair",
                    Lie::OutLin(..) => "fault.public_and_constraint",
                    _ => "fault.product_and_constraint",
                },
                1,
            );
        }
    }
    // The same script twice must give the same trace polynomial but for the blind.
    for a in 0..jobs.len() {
        for b in a + 1..jobs.len() {
            if case.trials[a].1 == case.trials[b].1 && case.trials[a].2 == case.trials[b].2 && case.trials[a].3 == case.trials[b].3 {
                if let (Some((_, Ok(x))), Some((_, Ok(y)))) = (got.get(a), got.get(b)) {
                    let (mut x, mut y) = (x.clone(), y.clone());
                    blind(&mut x, -jobs[a].alpha);
                    blind(&mut y, -jobs[b].alpha);
                    o.count("probe.same_script_twice", 1);
                    if !poly_eq(&x, &y) {
                        o.fail("schedule-dependent", format!("trials {a} and {b} traced the same values differently"));
                    }
                }
            }
        }
    }
    let known: u64 = progs.iter().map(|p| p.0.calls().1).sum();
    o.count("probe.known_routines", known);
    o.nontrivial = lied > 0 && jobs.iter().any(|j| j.ok);
    o.distinct.push(rep.schedule_hash);
    o
}

fn blind<R: Rank>(p: &mut sparse::Polynomial<Fp, R>, by: Fp) {
    let mut v = sparse::View::<_, R, _>::trace();
    v.a.push(Fp::ZERO);
    v.b.push(Fp::ZERO);
    v.c.push(Fp::ZERO);
    v.d.push(by);
    p.add_assign(&v.build());
}

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn budget(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 35 } else { 1500 }
    }
    fn rule(&self) -> &'static str {
        "a seed draws 1-3 random raw programs (trees of predicted/unpredicted routines issuing gates, virtual wires and constraints directly), and up to 32 provers on 1-3 threads: honest ones, and ones lying about single constraints, products, fourth wires and public values or about two of them by cancelling amounts; non-trivial when both an honest prover and a lying one ran; distinct by schedule hash and case"
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let small = rng.below(5) != 0;
        let np = 1 + rng.below(2 + (!small) as u64);
        let programs = (0..np)
            .map(|_| {
                let sh = if small {
                    RShape { max_depth: 1 + rng.below(3) as u32, max_nodes: 2 + rng.below(6) as u32, max_ops: 6, known_pct: [0, 50, 100][rng.below(3) as usize] }
                } else {
                    RShape { max_depth: 2 + rng.below(4) as u32, max_nodes: if tier == Tier::Thorough { 60 } else { 25 }, max_ops: 10, known_pct: [0, 50, 100][rng.below(3) as usize] }
                };
                let mut left = sh.max_nodes;
                gen_raw(&mut rng, &sh, 0, &mut left)
            })
            .collect();
        let nt = if small { 8 + rng.below(25) } else { 4 + rng.below(9) };
        let ncl = 1 + rng.below(3);
        let mut trials = Vec::new();
        for k in 0..nt {
            let (a, b) = (rng.below(4096), rng.below(4096));
            // Neighbouring and equally placed constraints collide first.
            let b = match rng.below(4) {
                0 => a + 1,
                1 => a + 2 + rng.below(6),
                _ => b,
            };
            let lie = match rng.below(20) {
                0..=2 => Lie::Honest,
                3 | 4 => Lie::Lin(a),
                5..=10 => Lie::LinPair(a, b),
                11 => Lie::Gate(a),
                12 | 13 => Lie::GatePair(a, b),
                14 => Lie::Fourth(a),
                15 => Lie::Out(a % 2),
                16 => Lie::OutPair,
                17 | 18 => Lie::OutLin(a % 2, b),
                _ => Lie::GateLin(a, b),
            };
            let lie = if k == 0 { Lie::Honest } else { lie };
            trials.push((rng.below(ncl) as u8, rng.below(np) as u8, lie, rng.next()));
        }
        if rng.below(2) == 0 {
            let t = trials[rng.below(nt) as usize].clone();
            trials.push((rng.below(ncl) as u8, t.1, t.2, t.3));
        }
        serde_json::to_value(Case { sim: SimCase::draw(&mut rng), programs, trials, small_rank: small }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).expect("case");
        if case.small_rank { execute::<TestRank>(&case) } else { execute::<ProductionRank>(&case) }
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = shrink_sim(case);
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let push = |v: &mut Vec<Value>, d: Case| v.push(serde_json::to_value(d).unwrap());
        if c.trials.len() > 1 {
            for h in [0, 1] {
                let mut d = c.clone();
                let m = c.trials.len() / 2;
                d.trials = if h == 0 { c.trials[..m].to_vec() } else { c.trials[m..].to_vec() };
                push(&mut v, d);
            }
        }
        if c.trials.len() > 1 && c.trials.len() < 8 {
            for i in 0..c.trials.len() {
                let mut d = c.clone();
                d.trials.remove(i);
                push(&mut v, d);
            }
        }
        for i in 0..c.programs.len() {
            if c.programs.len() > 1 {
                let mut d = c.clone();
                d.programs = vec![c.programs[i].clone()];
                push(&mut v, d);
            }
            for s in c.programs[i].shrinks() {
                let mut d = c.clone();
                d.programs[i] = s;
                push(&mut v, d);
            }
        }
        v
    }
}
