//! A prover that lies about its advice cannot make an in-circuit operation
//! mean anything but what it says.

use crate::circ::Env;
use crate::engine::*;
use crate::gad::*;
use crate::rec::*;
use ff::Field;
use ragu_core::maybe::Empty;
use ragu_pasta::Fp;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use simrt::Rng;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    /// The prover's private coin.
    pub coin: u64,
    /// How many lies it tries.
    pub lies: u32,
    /// An input it replaces by an illegal one.
    pub illegal: Option<(u16, Val)>,
}

pub struct C13;

struct Shape {
    rec: Rec<Empty>,
    pins: Vec<u32>,
    outs: Vec<u32>,
}

fn record(prog: &[G]) -> Result<Shape, (usize, String)> {
    let mut rec = Rec::<Empty>::new();
    let mut r = Regs::default();
    let env = Env::default();
    let e = interp(&mut rec, prog, &env, &mut r).and_then(|_| flatten(&mut rec, &r));
    match e {
        Ok(v) => Ok(Shape { outs: v.iter().map(|e| *e.wire()).collect(), pins: r.pins, rec }),
        Err(e) => Err((r.at, e.to_string())),
    }
}

/// What a variable-level pin is: the pinned wire's variable.
fn var_of(rec: &Rec<Empty>, w: u32) -> Option<u32> {
    match rec.wires[w as usize][..] {
        [(v, c)] if c == Fp::ONE => Some(v),
        _ => None,
    }
}

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "a run gives a lying prover a random program over elements, booleans, points, endoscalars, sponges and derived gadgets; its inputs are fixed (or one is illegal) and it searches the recorded constraints for advice that satisfies them; non-trivial when it made at least one choice the honest prover would not; distinct by program"
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let big = tier == Tier::Thorough && rng.chance(1, 4);
        let mx = Mixture {
            len: 3 + rng.below(if big { 30 } else { 14 }) as usize,
            wild: [0, 10, 60][rng.below(3) as usize],
            heavy: [0, 0, 1, 1, 2, 3][rng.below(6) as usize],
        };
        let prog = gen_prog(&mut rng, &mx);
        let illegal = rng.chance(1, 3).then(|| (rng.next() as u16, Val::draw(&mut rng)));
        serde_json::to_value(Case { prog, coin: rng.next() >> 1, lies: 1 + rng.below(4) as u32, illegal }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let mut o = Outcome::default();
        let mut case = case;
        for g in &mut case.prog {
            // A proposed inverse is advice: the prover is free to propose better.
            if let G::InvWith(_, good) = g {
                *good = true;
            }
        }
        let m = Model::run(&case.prog);
        // Leave out what the operations do not promise.
        let mut end = case.prog.len();
        if let Some((i, Bad::Open | Bad::Misuse)) = m.stop {
            end = end.min(i);
        }
        if let Some(i) = m.loose {
            end = end.min(i);
        }
        if let Some(i) = m.soft {
            end = end.min(i);
        }
        let impossible = m.bad().filter(|i| *i < end);
        if let Some(i) = impossible {
            end = i + 1;
        }
        let prog = &case.prog[..end];
        let m = Model::run(prog);
        let sh = match guard(|| record(prog)) {
            Err(p) => {
                o.fail("panic", format!("recording panicked: {p}"));
                return o;
            }
            Ok(Err((at, e))) => {
                o.fail("spurious-error", format!("operation {at} failed without a witness: {e}"));
                return o;
            }
            Ok(Ok(s)) => s,
        };
        if sh.pins.len() != m.pins.len() {
            o.fail("lost-input", format!("{} inputs, {} expected", sh.pins.len(), m.pins.len()));
            return o;
        }
        let want = m.outputs();
        // The honest prover.
        let mut live = Live::new();
        let mut regs = Regs::default();
        let env = Env::default();
        env.armed.store(true, std::sync::atomic::Ordering::SeqCst);
        let run = match guard(|| interp(&mut live, prog, &env, &mut regs).and_then(|_| flatten(&mut live, &regs))) {
            Ok(r) => r,
            Err(p) => {
                o.fail("panic", format!("the honest prover panicked: {p}"));
                return o;
            }
        };
        let honest = run.is_ok();
        match (&run, impossible) {
            (Err(e), None) => o.fail("honest-error", format!("operation {}: {e}", regs.at)),
            (Ok(_), None) => {
                if let Some(v) = live.violated() {
                    o.fail("honest-unsatisfied", format!("the honest assignment violates {v}"));
                }
            }
            (Ok(_), Some(i)) => {
                if live.violated().is_none() {
                    o.fail("accepted-impossible", format!("operation {i} ({:?}) cannot hold, yet the honest assignment satisfies everything", prog[i]));
                }
            }
            (Err(_), Some(_)) => {}
        }
        if honest && (live.gates != sh.rec.gates || live.lins != sh.rec.lins || live.wires != sh.rec.wires) {
            o.fail("witness-dependent", "the constraints differ with and without a witness");
        }
        if !o.violations.is_empty() {
            return o;
        }
        let rec = &sh.rec;
        let outs: Vec<Lc> = sh.outs.iter().map(|w| rec.wires[*w as usize].clone()).collect();
        let sys = Sys::new(rec.vars, &rec.gates, &rec.lins, &outs);
        o.count("probe.gates", rec.gates.len() as u64);
        o.count("probe.constraints", rec.lins.len() as u64);
        o.count("probe.variables", rec.vars as u64);
        let mut fixed: Vec<(u32, Fp)> = vec![];
        for (w, p) in sh.pins.iter().zip(&m.pins) {
            match var_of(rec, *w) {
                Some(v) => fixed.push((v, p.f())),
                None => {
                    o.fail("input-not-fresh", "an input is not a fresh wire");
                    return o;
                }
            }
        }
        let mut rng = Rng::new(case.coin);
        let hv = honest.then_some(&live.vals[..]);
        let mut st = Stats::default();
        let mut attack = |fixed: &[(u32, Fp)], lie, expect: Option<&[Fp]>, o: &mut Outcome| {
            let mut s = Stats::default();
            let got = forge(&sys, fixed, hv, lie, &mut rng, 300, &mut s);
            st.forced += s.forced;
            st.branches += s.branches;
            st.free += s.free;
            st.backtracks += s.backtracks;
            o.count("attack.tried", 1);
            o.count("attack.gave_up", s.gave_up as u64);
            o.mix(got.is_some() as u64 + 2 * s.backtracks);
            let Some(x) = got else { return };
            // Count nothing that is not a full satisfying assignment.
            if check(&rec.gates, &rec.lins, &x).is_some() || fixed.iter().any(|(v, f)| x[*v as usize] != *f) {
                o.count("attack.not_a_forgery", 1);
                return;
            }
            let val = |l: &Lc| -> Fp { l.iter().map(|(v, c)| x[*v as usize] * c).sum() };
            o.count("attack.satisfied", 1);
            match expect {
                None => o.fail("forged-impossible", "advice satisfies constraints that should have no solution"),
                Some(want) => {
                    for (k, (l, w)) in outs.iter().zip(want).enumerate() {
                        if val(l) != *w {
                            o.fail("forged-output", format!("advice makes output {k} of {} wrong", outs.len()));
                            return;
                        }
                    }
                }
            }
        };
        let expect = impossible.is_none().then_some(&want[..]);
        if impossible.is_none() && want.len() != outs.len() {
            o.fail("lost-output", format!("{} outputs, {} expected", outs.len(), want.len()));
            return o;
        }
        attack(&fixed, None, expect, &mut o);
        let mut r2 = Rng::new(case.coin ^ 0x11E5);
        for _ in 0..case.lies {
            if rec.vars < 2 {
                break;
            }
            let v = 1 + r2.below(rec.vars as u64 - 1) as u32;
            let h = hv.map(|h| h[v as usize]).unwrap_or(Fp::ZERO);
            let x = match r2.below(6) {
                0 => h + Fp::ONE,
                1 => -h,
                2 => Fp::ONE - h,
                3 => Fp::ZERO,
                4 => h.double(),
                _ => field_of(&mut r2),
            };
            if hv.is_some() && x == h {
                continue;
            }
            o.count("fault.lying_advice", 1);
            attack(&fixed, Some((v, x)), expect, &mut o);
        }
        if let (Some((k, v)), None, false) = (case.illegal, impossible, fixed.is_empty()) {
            let k = k as usize % fixed.len();
            // Prefer inputs that have a meaning.
            let k = (0..fixed.len()).map(|j| (k + j) % fixed.len()).find(|j| !matches!(m.pins[*j], Pin::Free(_)));
            if let Some(k) = k {
                let x = fixed[k].1 + v.f();
                let bad = match m.pins[k] {
                    Pin::Bit(_) => x != Fp::ZERO && x != Fp::ONE,
                    Pin::X(_) => !on_curve(x, fixed[k + 1].1),
                    Pin::Y(_) => !on_curve(fixed[k - 1].1, x),
                    Pin::Free(_) => false,
                };
                if bad {
                    let mut f = fixed.clone();
                    f[k].1 = x;
                    o.count("fault.illegal_input", 1);
                    attack(&f, None, None, &mut o);
                }
            }
        }
        if impossible.is_some() {
            o.count("fault.impossible_operation", 1);
        }
        o.count("solver.forced", st.forced);
        o.count("solver.branches", st.branches);
        o.count("solver.free_choices", st.free);
        o.count("solver.backtracks", st.backtracks);
        o.nontrivial = case.lies > 0 && rec.vars > 1;
        o.distinct.push(hash_str(&serde_json::to_string(&case.prog).unwrap()));
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        let mut v = vec![];
        let mut push = |d: Case| v.push(serde_json::to_value(d).unwrap());
        for p in shrinks(&c.prog) {
            push(Case { prog: p, ..c.clone() });
        }
        if c.illegal.is_some() {
            push(Case { illegal: None, ..c.clone() });
        }
        if c.lies > 0 {
            push(Case { lies: 0, ..c.clone() });
        }
        v
    }
    fn components(&self) -> Value {
        json!({
            "real": ["ragu_primitives: elements, booleans, points, endoscalars, sponge, demotion, consistency, writing", "ragu_macros derives on harness gadgets", "ragu_core: gadget mapping, Maybe, Driver defaults"],
            "stub": ["the driver: a recorder of gates, constraints and wires", "the prover: a searching adversary over the recorded constraints"]
        })
    }
}

fn field_of(r: &mut Rng) -> Fp {
    crate::props::field_of(r.next())
}

