//! A failed proof-making call leaves the node as it was.

use super::c02::carries;
use super::c05::pcd_components;
use crate::circ::{Env, FaultKind};
use crate::engine::*;
use crate::pcd::*;
use ff::Field;
use ragu_core::Error;
use ragu_pasta::Fp;
use ragu_pcd::sim::Part;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, atomic::Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// The step's witness computation fails at a site.
    Witness { step: u8, site: u64, kind: FaultKind },
    /// The entropy source dies at the n-th draw of a step.
    Entropy { step: u8, at: u64 },
    /// The same while rerandomizing (which may be filling the node's cache).
    EntropyRerandomize { item: usize, at: u64 },
    /// A step that was never registered.
    Unregistered,
    /// A child whose stored header lost or gained an element.
    Malformed { left: bool, grow: bool },
    /// A header whose encoding does not fit.
    Oversized,
    /// The entropy source dies while verifying.
    EntropyVerify { item: usize, at: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum After {
    Step { step: u8 },
    Rerandomize { item: usize },
    Verify { item: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub bad: Vec<Bad>,
    pub after: After,
}

pub struct C09;

/// An entropy source that dies at the n-th draw.
pub struct Dying {
    inner: rand::rngs::StdRng,
    left: u64,
}
impl Dying {
    pub fn new(seed: u64, at: u64) -> Self {
        Dying { inner: rng(seed), left: at }
    }
    fn tick(&mut self) {
        if self.left == 0 {
            std::panic::panic_any("injected-entropy-failure".to_string());
        }
        self.left -= 1;
    }
}
impl rand::TryRng for Dying {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        self.tick();
        self.inner.try_next_u32()
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        self.tick();
        self.inner.try_next_u64()
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> {
        self.tick();
        self.inner.try_fill_bytes(d)
    }
}
impl rand::TryCryptoRng for Dying {}

fn child(kind: u8) -> &'static Item {
    pool().items.iter().find(|i| i.kind == kind).unwrap()
}
fn child2(kind: u8) -> &'static Item {
    pool().items.iter().rev().find(|i| i.kind == kind).unwrap()
}

const G: u64 = 4242;

fn good(app: &App, a: &After) -> Result<(u64, bool), String> {
    let i = match a {
        After::Verify { item } => {
            return verify(app, rng(G), &pool().items[*item]).map(|v| (v as u64, v)).map_err(|e| e.to_string());
        }
        After::Step { step } => {
            let (l, r, _) = SIG[*step as usize];
            apply(app, &mut rng(G), *step, plain(6), Some(child2(l)), Some(child2(r))).map(|x| x.0)
        }
        After::Rerandomize { item } => rerandomize(app, &mut rng(G), &pool().items[*item]),
    }
    .map_err(|e| e.to_string())?;
    let v = verify(app, rng(G + 1), &i).map_err(|e| e.to_string())?;
    Ok((simrt::quiet(|| digest(&i)), v))
}

/// What the call gives on a node where nothing ever failed.
fn baseline(a: &After) -> Result<(u64, bool), String> {
    type M = HashMap<String, Result<(u64, bool), String>>;
    static C: Mutex<Option<M>> = Mutex::new(None);
    let key = serde_json::to_string(a).unwrap();
    if let Some(v) = C.lock().unwrap().get_or_insert_default().get(&key) {
        return v.clone();
    }
    let v = good(&build_app(), a);
    C.lock().unwrap().get_or_insert_default().insert(key, v.clone());
    v
}

/// Runs a failing call; `Err` explains how the failure was misreported.
/// `Ok(Some(kind))` names the fault that fired, `Ok(None)` that none did.
fn fail_once(app: &App, b: &Bad) -> Result<Option<&'static str>, String> {
    let entropy = |r: Result<Result<(), Error>, String>| match r {
        Err(e) if e.contains("injected-entropy-failure") => Ok(Some("entropy_source_died")),
        Err(e) => Err(format!("a dead entropy source surfaced as another panic: {e}")),
        Ok(Ok(())) => Ok(None),
        Ok(Err(e)) => Err(format!("a dead entropy source surfaced as an error: {e}")),
    };
    match b {
        Bad::Witness { step, site, kind } => {
            let env = Env { faults: [(*site, *kind)].into(), ..Env::default() };
            env.armed.store(true, Ordering::SeqCst);
            let env = Arc::new(env);
            let (l, r, _) = SIG[*step as usize];
            let (l, r) = (child(l), child(r));
            let (lb, rb) = (digest(l), digest(r));
            let w = W { v: Fp::from(6), env: env.clone() };
            let res = guard(|| apply(app, &mut rng(G), *step, w, Some(l), Some(r)).map(|_| ()));
            if digest(l) != lb || digest(r) != rb {
                return Err("a failing call changed a child".into());
            }
            let fired = env.fired.lock().unwrap().clone();
            match (res, fired.first(), kind) {
                (Ok(Err(e)), Some((t, _)), FaultKind::Error) if carries(&e, *t) => Ok(Some("witness_error")),
                (Err(p), Some((t, _)), FaultKind::Panic) if p.contains(&format!("injected-{t:016x}")) => {
                    Ok(Some("witness_panic"))
                }
                (r, f, _) => Err(format!("a failing witness ({kind:?} at site {site}, fired {f:?}) surfaced as {r:?}")),
            }
        }
        Bad::Entropy { step, at } => {
            let (l, r, _) = SIG[*step as usize];
            entropy(guard(|| {
                apply(app, &mut Dying::new(G, *at), *step, plain(6), Some(child(l)), Some(child(r))).map(|_| ())
            }))
        }
        Bad::EntropyRerandomize { item, at } => {
            entropy(guard(|| rerandomize(app, &mut Dying::new(G, *at), &pool().items[*item]).map(|_| ())))
        }
        Bad::EntropyVerify { item, at } => {
            entropy(guard(|| verify(app, Dying::new(G, *at), &pool().items[*item]).map(|_| ())))
        }
        Bad::Unregistered => match guard(|| app.seed(&mut rng(G), Ghost, plain(1)).map(|_| ())) {
            Ok(Err(Error::Initialization(_))) => Ok(Some("unregistered_step")),
            r => Err(format!("an unregistered step gave {r:?}")),
        },
        Bad::Malformed { left, grow } => {
            let mut i = child(1).clone();
            i.proof.sim_parts(&mut |n, part| {
                if let (Part::Header(h), true) =
                    (part, n == if *left { "application.left_header" } else { "application.right_header" })
                {
                    if *grow {
                        h.push(Fp::ONE)
                    } else {
                        h.pop();
                    }
                }
            });
            match guard(|| apply(app, &mut rng(G), 1, plain(1), Some(&i), Some(child(1))).map(|_| ())) {
                Ok(Err(_)) => Ok(Some("malformed_child")),
                r => Err(format!("a child with a malformed header gave {r:?}")),
            }
        }
        Bad::Oversized => match guard(|| oversized(app, &mut rng(G))) {
            Ok(Err(Error::MalformedEncoding(_))) => Ok(Some("oversized_header")),
            r => Err(format!("an oversized header gave {r:?}")),
        },
    }
}

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "a run makes one or two calls fail on a node (witness errors and panics, a dying entropy source, malformed children, unregistered steps) and then compares a healthy call bit for bit with one on a fresh node; non-trivial when a fault fired; distinct by (faults, healthy call)"
    }
    fn prepare(&self) {
        prepare_pool();
    }
    fn warm(&self) {
        let _ = guard(pool);
    }
    fn generate(&self, seed: u64, _tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let mut sim = SimCase::draw(&mut rng);
        sim.field_gap = 0;
        let n = 1 + rng.below(2);
        let bad = (0..n)
            .map(|_| {
                let step = rng.below(STEPS as u64) as u8;
                let item = rng.below(POOL as u64) as usize;
                match rng.below(12) {
                    0..=3 => Bad::Witness {
                        step,
                        site: 1 + rng.below(2),
                        kind: if rng.chance(1, 2) { FaultKind::Error } else { FaultKind::Panic },
                    },
                    4 | 5 => Bad::Entropy { step, at: rng.below(220) },
                    6..=8 => Bad::EntropyRerandomize { item, at: rng.below(440) },
                    9 => Bad::Malformed { left: rng.chance(1, 2), grow: rng.chance(1, 2) },
                    10 => {
                        if rng.chance(1, 2) {
                            Bad::Unregistered
                        } else {
                            Bad::Oversized
                        }
                    }
                    _ => Bad::EntropyVerify { item, at: rng.below(40) },
                }
            })
            .collect();
        let after = match rng.below(6) {
            0..=2 => After::Step { step: rng.below(3) as u8 },
            3 | 4 => After::Rerandomize { item: rng.below(2) as usize },
            _ => After::Verify { item: rng.below(POOL as u64) as usize },
        };
        serde_json::to_value(Case { sim, bad, after }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let mut o = Outcome::default();
        let _ = pool();
        let want = baseline(&case.after);
        let c = &case;
        let (r, rep) = case.sim.run1(move || {
            let app = build_app();
            let bad: Vec<_> = c.bad.iter().map(|b| fail_once(&app, b)).collect();
            let got = guard(|| good(&app, &c.after));
            (bad, got)
        });
        o.absorb_report(&rep);
        o.decisions = rep.decisions.clone();
        o.distinct.push(hash_str(&serde_json::to_string(&(&case.bad, &case.after)).unwrap()));
        let (bad, got) = match r {
            Err(e) => {
                o.fail("panic", e);
                return o;
            }
            Ok(x) => x,
        };
        // A rerandomization that got far enough leaves its cached trivial
        // proof behind, whose randomness is not the healthy call's.
        let cached = case.bad.iter().any(|b| matches!(b, Bad::EntropyRerandomize { .. } | Bad::Oversized))
            && matches!(case.after, After::Rerandomize { .. });
        for b in &bad {
            match b {
                Err(e) => o.fail("misreported", e.clone()),
                Ok(Some(k)) => {
                    o.nontrivial = true;
                    o.count(&format!("fault.{k}"), 1);
                }
                Ok(None) => o.count("fault_after_the_call_was_over", 1),
            }
            o.mix(hash_str(&format!("{b:?}")));
        }
        o.mix(hash_str(&format!("{got:?}")));
        match got {
            Err(p) => o.fail("poisoned", format!("a healthy call panicked after a failure: {p}")),
            Ok(g) => {
                let same = if cached { g.as_ref().map(|x| x.1) == want.as_ref().map(|x| x.1) } else { g == want };
                if !same {
                    o.fail("poisoned", format!("a healthy call after a failure differs from one on a fresh node: {g:?} instead of {want:?}"));
                } else if !matches!(g, Ok((_, true))) {
                    o.fail("poisoned", format!("a healthy call was not accepted: {g:?}"));
                }
            }
        }
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = Vec::new();
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        if c.bad.len() > 1 {
            for i in 0..c.bad.len() {
                let mut d = c.clone();
                d.bad.remove(i);
                v.push(serde_json::to_value(d).unwrap());
            }
        }
        v.extend(shrink_sim(case));
        v
    }
    fn components(&self) -> Value {
        pcd_components()
    }
}
