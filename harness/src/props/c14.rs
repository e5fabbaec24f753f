//! Every driver gives a program the same meaning.

use super::c01::{field, identity, poly_eq, poly_hash};
use crate::circ::{Env, FaultKind, Injected};
use crate::engine::*;
use crate::gad::*;
use ff::{Field, PrimeField};
use ragu_arithmetic::Coeff;
use ragu_circuits::{
    CircuitExt,
    polynomials::ProductionRank,
    registry::{CircuitIndex, RegistryBuilder},
};
use ragu_core::{
    Error, Result as RResult,
    drivers::{DirectSum, Driver, DriverTypes, emulator::Emulator, emulator::Wired},
    maybe::{Always, Maybe},
};
use ragu_pasta::{Fp, Fq};
use ragu_primitives::{
    Element, Simulator, extract_endoscalar,
    io::{Buffer, Pipe},
    lift_endoscalar,
};
use ragu_testing::registry::{Handle, TestRegistry, TestRegistryBuilder};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use simrt::Rng;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub prog: Prog,
    /// Operation whose witness closure fails.
    pub fault: Option<u64>,
    /// Also as a registered circuit, traced by this many callers.
    pub callers: usize,
}

pub struct C14;

/// A driver that overrides nothing it does not have to.
#[derive(Default)]
struct Plain {
    broken: bool,
}

impl DriverTypes for Plain {
    type ImplField = Fp;
    type ImplWire = Fp;
    type MaybeKind = Always<()>;
    type LCadd = DirectSum<Fp>;
    type LCenforce = DirectSum<Fp>;
    fn gate(
        &mut self,
        values: impl Fn() -> RResult<(Coeff<Fp>, Coeff<Fp>, Coeff<Fp>, Coeff<Fp>)>,
    ) -> RResult<(Fp, Fp, Fp, Fp)> {
        let (a, b, c, d) = values()?;
        let (a, b, c, d) = (a.value(), b.value(), c.value(), d.value());
        self.broken |= a * b != c || c * d != Fp::ZERO;
        Ok((a, b, c, d))
    }
}

impl<'dr> Driver<'dr> for Plain {
    type F = Fp;
    type Wire = Fp;
    const ONE: Fp = Fp::ONE;
    fn add(&mut self, lc: impl Fn(DirectSum<Fp>) -> DirectSum<Fp>) -> Fp {
        lc(DirectSum::default()).value()
    }
    fn enforce_zero(&mut self, lc: impl Fn(DirectSum<Fp>) -> DirectSum<Fp>) -> RResult<()> {
        self.broken |= lc(DirectSum::default()).value() != Fp::ZERO;
        Ok(())
    }
}

/// What a run on some driver showed.
struct Seen {
    at: usize,
    err: Option<(String, &'static str)>,
    values: Vec<Fp>,
    points_ok: bool,
    wires: Option<Vec<Fp>>,
}

fn err_kind(e: &Error) -> &'static str {
    match e {
        Error::InvalidWitness(x) if x.downcast_ref::<Injected>().is_some() => "injected",
        Error::InvalidWitness(_) => "invalid-witness",
        Error::Initialization(_) => "initialization",
        _ => "other",
    }
}

fn drive<'dr, D: Driver<'dr, F = Fp, MaybeKind = Always<()>>>(
    dr: &mut D,
    prog: &[G],
    env: &Env,
    model: &Model,
    wire: impl Fn(&D::Wire) -> Option<Fp>,
) -> (Seen, Vec<Element<'dr, D>>) {
    let mut r = Regs::default();
    let res = interp(dr, prog, env, &mut r);
    let at = r.at;
    let flat = flatten(dr, &r).expect("flattening cannot fail");
    let values = flat.iter().map(|e| *e.value().take()).collect();
    let wires: Option<Vec<Fp>> = flat.iter().map(|e| wire(e.wire())).collect();
    let points_ok = r.p.iter().zip(&model.p).all(|(p, q)| p.value().take() == *q);
    (Seen { at, err: res.err().map(|e| (e.to_string(), err_kind(&e))), values, points_ok, wires }, flat)
}

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "a run gives one random program over the in-circuit types to a plain model and to every driver (checking simulator, wired and wireless emulators, a witness-free counter, a driver using only default methods, and real traces of a registered circuit under a simulated pool), with at most one failing witness closure; non-trivial when the program has at least two operations; distinct by program and fault"
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let big = tier == Tier::Thorough && rng.chance(1, 4);
        let mx = Mixture {
            len: 3 + rng.below(if big { 40 } else { 16 }) as usize,
            wild: [0, 0, 10, 50][rng.below(4) as usize],
            heavy: [0, 0, 1, 2, 3][rng.below(5) as usize],
        };
        let prog = gen_prog(&mut rng, &mx);
        let fault = rng.chance(1, 4).then(|| rng.below(prog.len() as u64));
        let callers = if rng.chance(1, 4) { 1 + rng.below(2) as usize } else { 0 };
        let mut sim = SimCase::draw(&mut rng);
        sim.field_gap = 0;
        serde_json::to_value(Case { sim, prog, fault, callers }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let mut o = Outcome::default();
        let prog = &case.prog;
        let m = Model::run(prog);
        // A fault only matters where a witness closure runs.
        let fault = case.fault.filter(|f| {
            matches!(prog.get(*f as usize), Some(G::In(_) | G::InSq(_) | G::Bit(_) | G::Pt { .. } | G::Endo(..)))
        });
        let fresh = |armed: bool| {
            let mut e = Env::default();
            if let Some(f) = fault {
                e.faults.insert(f, FaultKind::Error);
            }
            e.armed.store(armed, Ordering::SeqCst);
            e
        };
        let cut = |end: Option<usize>, kind: &'static str| -> (usize, Option<&'static str>) {
            match (end, fault.map(|f| f as usize)) {
                (Some(e), Some(f)) if f < e => (f, Some("injected")),
                (None, Some(f)) => (f, Some("injected")),
                (Some(e), _) => (e, Some(kind)),
                (None, None) => (prog.len(), None),
            }
        };
        let stop_kind = |s: Bad| if s == Bad::Misuse { "initialization" } else { "invalid-witness" };
        // Emulators go on past unsatisfied constraints; the simulator does not.
        let lax = cut(m.stop.map(|s| s.0), m.stop.map(|s| stop_kind(s.1)).unwrap_or(""));
        let strict = {
            let k = match (m.unsat, m.stop) {
                (Some(u), Some((s, b))) if s < u => stop_kind(b),
                (Some(_), _) => "invalid-witness",
                (None, Some((_, b))) => stop_kind(b),
                (None, None) => "",
            };
            cut(m.bad(), k)
        };
        let expect = |n: usize| Model::run(&prog[..n]);
        let judge = |who: &str, s: Seen, want: (usize, Option<&'static str>), o: &mut Outcome| {
            let kind = s.err.as_ref().map(|e| e.1);
            if kind != want.1 || s.at != want.0 {
                o.fail(
                    "different-outcome",
                    format!("{who}: ended at operation {} with {:?}; expected {} with {:?}", s.at, s.err, want.0, want.1),
                );
                return;
            }
            // Operations that fail leave no registers behind, except those that
            // fail after pushing; compare what completed operations produced.
            let em = expect(want.0);
            let ev = em.outputs();
            if s.err.is_some() && s.values.len() != ev.len() {
                return;
            }
            if s.values != ev {
                let k = s.values.iter().zip(&ev).position(|(a, b)| a != b);
                o.fail("different-value", format!("{who}: {} values for {}, first difference at {k:?}", s.values.len(), ev.len()));
                return;
            }
            if !s.points_ok {
                o.fail("different-value", format!("{who}: a point's value is wrong"));
            }
            if let (Some(w), None) = (&s.wires, em.unsat) {
                if *w != ev {
                    let k = w.iter().zip(&ev).position(|(a, b)| a != b);
                    o.fail("wire-value-mismatch", format!("{who}: a wire does not carry its value, at {k:?}"));
                }
            }
            for v in ev {
                o.mix(u64::from_le_bytes(v.to_repr()[..8].try_into().unwrap()));
            }
        };
        type Emu<M> = Emulator<M>;
        let r = guard(|| {
            let mut out: Vec<(&str, Seen, (usize, Option<&'static str>))> = vec![];
            let mut strays = 0;
            // Checking simulator.
            {
                let env = fresh(true);
                let mut dr = Simulator::<Fp>::new();
                out.push(("simulator", drive(&mut dr, prog, &env, &m, |w| Some(*w)).0, strict));
            }
            {
                let env = fresh(true);
                let mut dr = Emu::<Wired<Fp>>::extractor();
                out.push(("wired emulator", drive(&mut dr, prog, &env, &m, |w| Some(*w)).0, lax));
            }
            let mut piped = None;
            {
                let env = fresh(true);
                let mut dr = Emulator::<ragu_core::drivers::emulator::Wireless<Always<()>, Fp>>::execute();
                let (s, flat) = drive(&mut dr, prog, &env, &m, |_| None);
                // Hand every register to another driver.
                let mut dst = Simulator::<Fp>::new();
                let mut buf: Vec<Element<'_, Simulator<Fp>>> = vec![];
                {
                    let mut pipe = Pipe::new(&mut dst, &mut buf);
                    for e in &flat {
                        pipe.write(&mut dr, e).expect("piping cannot fail");
                    }
                }
                let v: Vec<Fp> = buf.iter().map(|e| *e.value().take()).collect();
                let w: Vec<Fp> = buf.iter().map(|e| *e.wire()).collect();
                if v != s.values || w != s.values {
                    piped = Some("a pipe changed a value");
                }
                out.push(("wireless emulator", s, lax));
            }
            let mut plain_broken = None;
            {
                let env = fresh(true);
                let mut dr = Plain::default();
                let s = drive(&mut dr, prog, &env, &m, |w| Some(*w)).0;
                if s.err.is_none() {
                    plain_broken = Some(dr.broken);
                }
                out.push(("plain driver", s, lax));
            }
            // Without a witness.
            let counter = {
                let env = fresh(false);
                let mut dr = Emulator::counter();
                let mut r = Regs::default();
                let e = interp(&mut dr, prog, &env, &mut r);
                strays += env.stray.load(Ordering::SeqCst);
                (r.at, e.err().map(|e| err_kind(&e)))
            };
            (out, strays, piped, plain_broken, counter)
        });
        let (runs, strays, piped, plain_broken, counter) = match r {
            Err(p) => {
                o.fail("panic", format!("a driver panicked: {p}"));
                return o;
            }
            Ok(x) => x,
        };
        for (who, s, want) in runs {
            if s.err.as_ref().is_some_and(|e| e.1 == "injected") {
                o.count("fault.witness_error", 1);
            }
            judge(who, s, want, &mut o);
        }
        if strays > 0 {
            o.fail("stray-witness", format!("{strays} witness closures ran without a witness"));
        }
        if let Some(p) = piped {
            o.fail("different-value", p);
        }
        if let (Some(b), true) = (plain_broken, m.stop.is_none()) {
            if b != m.unsat.is_some() {
                o.fail("different-outcome", format!("default-method driver: broken is {b}, unsatisfied is {:?}", m.unsat));
            }
        }
        match m.stop {
            None if counter != (prog.len(), None) => o.fail("different-outcome", format!("counter ended with {counter:?}")),
            Some((i, Bad::Misuse)) if counter != (i, Some("initialization")) => {
                o.fail("different-outcome", format!("counter ended with {counter:?}, expected a misuse at {i}"))
            }
            _ => {}
        }
        // The native counterparts of endoscalar extraction and lifting.
        for (k, op) in prog.iter().enumerate() {
            if let (G::Extract(a), true) = (op, k < lax.0) {
                let pm = expect(k);
                let x = pm.e[*a as usize % pm.e.len()];
                let e = *expect(k + 1).s.last().unwrap();
                if extract_endoscalar(x) != e {
                    o.fail("native-differs", "native extraction differs from the model");
                }
                if lift_endoscalar::<Fp>(e) != lift_model(e) || lift_endoscalar::<Fq>(e) != lift_model(e) {
                    o.fail("native-differs", "native lifting differs from the model");
                }
            }
        }
        o.count("probe.unsatisfied", m.unsat.is_some() as u64);
        o.count("probe.stopped", m.stop.is_some() as u64);
        if case.callers > 0 && o.violations.is_empty() {
            circuit(&case, &m, lax, fresh(true), &mut o);
        }
        o.nontrivial = prog.len() > 1;
        o.distinct.push(hash_str(&serde_json::to_string(&(&case.prog, case.fault)).unwrap()));
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        let mut v = vec![];
        let mut push = |d: Case| v.push(serde_json::to_value(d).unwrap());
        if c.callers > 0 {
            push(Case { callers: 0, ..c.clone() });
        }
        if c.fault.is_some() {
            push(Case { fault: None, ..c.clone() });
        }
        for p in shrinks(&c.prog) {
            push(Case { prog: p, ..c.clone() });
        }
        if c.callers > 0 {
            v.extend(shrink_sim(case));
        }
        v
    }
    fn components(&self) -> Value {
        json!({
            "real": ["ragu_primitives gadgets and Simulator", "ragu_core emulators, Maybe, gadget mapping, default driver methods", "ragu_macros derives on harness gadgets", "ragu_circuits tracing, registration and assembly"],
            "stub": ["a driver using only default methods", "the thread pool behind maybe-rayon (scheduled by the simulator)"]
        })
    }
}

/// The program as a registered circuit, traced under simulated schedules.
fn circuit(case: &Case, m: &Model, lax: (usize, Option<&'static str>), env: Env, o: &mut Outcome) {
    env.armed.store(false, Ordering::SeqCst);
    let p = GProg { prog: Arc::new(case.prog.clone()), env: Arc::new(env) };
    let mut b = TestRegistryBuilder::<Fp, ProductionRank>::new();
    let h = match guard(|| b.register_circuit(p.clone())) {
        Err(e) => return o.fail("panic", format!("registration panicked: {e}")),
        Ok(Err(Error::GateBoundExceeded { .. } | Error::ConstraintBoundExceeded { .. })) => {
            return o.count("probe.program_over_bound", 1);
        }
        Ok(Err(e)) => {
            if m.stop.is_none() {
                o.fail("different-outcome", format!("registration failed: {e}"));
            }
            return;
        }
        Ok(Ok(h)) => h,
    };
    let reg = match b.finalize() {
        Ok(r) => r,
        Err(e) => return o.fail("different-outcome", format!("finalize failed: {e}")),
    };
    if p.env.stray.load(Ordering::SeqCst) > 0 {
        o.fail("stray-witness", "witness closures ran during registration");
    }
    p.env.armed.store(true, Ordering::SeqCst);
    let got = Mutex::new(vec![]);
    let mut clients: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for _ in 0..case.callers {
        let (p, got) = (&p, &got);
        clients.push(Box::new(move || {
            let r = p.trace(()).map(|t| t.into_parts()).map_err(|e| (e.to_string(), err_kind(&e)));
            got.lock().unwrap().push(r);
        }));
    }
    let (rep, panics) = simrt::run(case.sim.config(), clients);
    o.absorb_report(&rep);
    o.decisions = rep.decisions.clone();
    for p in panics.into_iter().flatten() {
        o.fail("panic", format!("a trace panicked: {}", panic_text(&*p)));
    }
    o.count("probe.circuits_traced", 1);
    let mut rng = Rng::new(case.sim.seed ^ 0xC14);
    let (alpha, y, z) = (field(&mut rng), field(&mut rng), field(&mut rng));
    if let Err(e) = wiring(&p, &reg, h, &mut rng) {
        o.fail("wiring-differs", e);
    }
    let mut first = None;
    for r in got.into_inner().unwrap() {
        match (r, lax.1) {
            (Err((_, k)), Some(w)) if k == w => {}
            (Err(e), w) => o.fail("different-outcome", format!("trace failed with {e:?}, expected {w:?}")),
            (Ok(_), Some(w)) => o.fail("different-outcome", format!("trace succeeded, expected {w}")),
            (Ok((t, aux)), None) => {
                let want = m.outputs();
                if aux != want {
                    o.fail("different-value", "trace: values differ from the model");
                }
                let rx = match reg.assemble(&t, h, alpha) {
                    Ok(x) => x,
                    Err(e) => return o.fail("different-outcome", format!("assembly failed: {e}")),
                };
                o.mix(poly_hash(&rx));
                let ky = p.ky(combine(&want), y).expect("instance polynomial");
                let holds = identity(&reg, h, &rx, ky, y, z);
                if holds != m.unsat.is_none() {
                    o.fail(
                        "different-outcome",
                        format!("the circuit identity is {holds}, yet the first unsatisfied operation is {:?}", m.unsat),
                    );
                }
                let lie = p.ky(combine(&want) + Fp::ONE, y).expect("instance polynomial");
                if identity(&reg, h, &rx, lie, y, z) {
                    o.fail("different-outcome", "the circuit identity holds for a wrong output");
                }
                match &first {
                    None => first = Some(rx),
                    Some(f) if poly_eq(f, &rx) => {}
                    Some(_) => o.fail("schedule-dependent", "two callers traced different polynomials"),
                }
            }
        }
    }
}

/// Every evaluation of the circuit's wiring agrees, here and in a registry of
/// its own.
fn wiring(p: &GProg, reg: &TestRegistry<'_, Fp, ProductionRank>, h: Handle, rng: &mut Rng) -> Result<(), String> {
    let (x, y) = (field(rng), field(rng));
    let say = |e: &str| Err(e.to_string());
    match guard(|| {
        if reg.y(h, y).eval(x) != reg.xy(h, x, y) {
            return say("s(X, y) at x is not s(x, y)");
        }
        let own = RegistryBuilder::<Fp, ProductionRank>::new()
            .register_internal_circuit(p.clone())
            .and_then(|b| b.finalize())
            .map_err(|e| format!("a registry of its own failed: {e}"))?;
        let w = CircuitIndex::new(0).omega_j();
        let s = own.wxy(w, x, y);
        if own.wx(w, x).eval(y) != s {
            return say("s(x, Y) at y is not s(x, y)");
        }
        if own.wy(w, y).eval(x) != s {
            return say("the registry's s(X, y) at x is not s(x, y)");
        }
        Ok(())
    }) {
        Ok(r) => r,
        Err(e) => say(&format!("evaluating the wiring panicked: {e}")),
    }
}
