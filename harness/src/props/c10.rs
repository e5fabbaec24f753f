//! Version skew: a proof is only accepted under the application that made it,
//! and never for a step the application did not register.

use super::c05::pcd_components;
use crate::engine::*;
use crate::pcd::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::OnceLock;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    /// An item of the current version reaches a node of version `v`.
    Verify { item: usize, v: usize, g: u64 },
    /// A node of version `v` makes a leaf; a node of version `u` checks it.
    Foreign { v: usize, u: usize, w: u64, g: u64 },
    /// A node of version `v` merges its own leaf with a current item, in
    /// either order; nodes of version `v` and 0 check the result.
    Mixed { v: usize, item: usize, left: bool, w: u64, g: u64 },
    /// A node of the current version runs unregistered code under a
    /// registered index.
    Rogue { which: u8, w: u64, g: u64 },
    /// A node rerandomizes an item of another version.
    Rerandomize { v: usize, item: usize, g: u64 },
    /// A node with another header size meets a current item.
    Resized { item: usize, g: u64 },
    /// An operator lists these steps, in or out of order, with header types
    /// that may share a suffix.
    Enlist { lists: Vec<Vec<usize>> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub events: Vec<Ev>,
}

pub struct C10;

fn one_item(k: usize) -> &'static Item {
    let c = [ONE_A, ONE_B, MERGED, RERAND];
    &pool().items[c[k % c.len()]]
}

fn leaf_of(v: usize) -> Item {
    struct Slot(OnceLock<Item>);
    static L: [Slot; VERSIONS] = [const { Slot(OnceLock::new()) }; VERSIONS];
    L[v].0
        .get_or_init(|| version_leaf(&build_version(v), v, &mut rng(31 + v as u64), plain(8)).expect("own leaf"))
        .clone()
}

type R = Result<Vec<(String, bool, Result<Result<bool, String>, String>)>, String>;

fn event(e: &Ev, leaf: Option<&Item>) -> R {
    let s = |r: ragu_core::Result<bool>| r.map_err(|e| e.to_string());
    let mut out = Vec::new();
    match e {
        Ev::Verify { item, v, g } => {
            let app = build_version(*v);
            out.push((format!("v{v} verifying a v0 item"), *v == 0, guard(|| s(verify(&app, rng(*g), &pool().items[*item])))));
        }
        Ev::Foreign { v, u, w, g } => {
            let a = build_version(*v);
            match guard(|| version_leaf(&a, *v, &mut rng(*g), plain(*w))) {
                Ok(Ok(i)) => {
                    let b = build_version(*u);
                    out.push((format!("v{u} verifying a v{v} leaf"), u == v, guard(|| s(verify(&b, rng(g + 1), &i)))));
                }
                r => return Err(format!("a v{v} node could not make a leaf: {:?}", r.map(|x| x.map(|_| ())))),
            }
        }
        Ev::Mixed { v, item, left, w, g } => {
            let a = build_version(*v);
            let own = leaf.unwrap();
            let theirs = one_item(*item);
            let (l, r) = if *left { (own, theirs) } else { (theirs, own) };
            match guard(|| version_merge(&a, *v, &mut rng(*g), plain(*w), l, r)) {
                Err(p) if *v == 0 => out.push((format!("v{v} merging a v0 item"), true, Err(p))),
                Err(_) => out.push((format!("v{v} merging a v0 item"), false, Ok(Err("stopped".into())))),
                Ok(Err(e)) => out.push((format!("v{v} merging a v0 item"), *v == 0, Ok(Err(e.to_string())))),
                Ok(Ok(i)) => {
                    out.push((format!("v{v} verifying its merge with a v0 item"), *v == 0, guard(|| s(verify(&a, rng(g + 1), &i)))));
                    if *v != 0 {
                        let b = build_version(0);
                        out.push((format!("v0 verifying a v{v} merge"), false, guard(|| s(verify(&b, rng(g + 2), &i)))));
                    }
                }
            }
        }
        Ev::Rogue { which, w, g } => {
            let a = build_version(0);
            let p = &pool().items;
            match guard(|| rogue(&a, *which, &mut rng(*g), plain(*w), &p[ONE_A], &p[ONE_B], &p[NIL])) {
                // The prover itself stopping, by an error or an assertion, is a refusal.
                Err(_) => out.push((format!("rogue step {}", which % 4), false, Ok(Err("stopped".into())))),
                Ok(Err(e)) => out.push((format!("rogue step {}", which % 4), false, Ok(Err(e.to_string())))),
                Ok(Ok(i)) => out.push((
                    format!("verifying rogue step {}", which % 4),
                    false,
                    guard(|| s(verify(&a, rng(g + 1), &i))),
                )),
            }
        }
        Ev::Rerandomize { v, item, g } => {
            let a = build_version(*v);
            let i = one_item(*item);
            match guard(|| rerandomize(&a, &mut rng(*g), i)) {
                Err(p) if *v == 0 => out.push((format!("v{v} rerandomizing a v0 item"), true, Err(p))),
                Err(_) => out.push((format!("v{v} rerandomizing a v0 item"), false, Ok(Err("stopped".into())))),
                Ok(Err(e)) => out.push((format!("v{v} rerandomizing a v0 item"), *v == 0, Ok(Err(e.to_string())))),
                Ok(Ok(i)) => {
                    for u in [*v, 0] {
                        let b = build_version(u);
                        out.push((format!("v{u} verifying a v0 item rerandomized by v{v}"), *v == 0, guard(|| s(verify(&b, rng(g + 1), &i)))));
                    }
                }
            }
        }
        Ev::Enlist { lists } => {
            for l in lists {
                match guard(|| enlist(l)) {
                    Err(p) => return Err(format!("registering steps panicked: {p}")),
                    Ok((want, got)) => match (want, got) {
                        (w, g) if w == g => out.push((format!("registering {} steps", l.len()), want.is_none(), Ok(Ok(want.is_none())))),
                        (Some(i), _) => {
                            out.push((format!("step {i} is out of place or takes a used suffix, and the application"), false, Ok(Ok(true))))
                        }
                        (None, g) => out.push(("registering proper steps".into(), true, Ok(Err(format!("refused at {g:?}"))))),
                    },
                }
            }
        }
        Ev::Resized { item, g } => {
            out.push(("a wider header verifying a current item".into(), false, guard(|| s(wide_verify(rng(*g), &pool().items[*item])))));
        }
    }
    Ok(out)
}

/// Mostly a proper list, often with one step in the wrong place or with
/// somebody else's suffix.
fn gen_steps(rng: &mut Rng) -> Vec<usize> {
    let n = shelf().len() as u64;
    let shelf = shelf();
    let mut v: Vec<usize> = (0..1 + rng.below(8) as usize).collect();
    for _ in 0..rng.below(3) {
        let i = rng.below(v.len() as u64) as usize;
        let fit: Vec<usize> = (0..shelf.len()).filter(|k| shelf[*k].2 == i).collect();
        match rng.below(6) {
            0 => v[i] = rng.below(n) as usize,
            1 => v.truncate(i + 1),
            2 if i > 0 => v.swap(i, i - 1),
            _ => v[i] = fit[rng.below(fit.len() as u64) as usize],
        }
    }
    v
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "a run lets nodes running different versions of an application exchange, merge, rerandomize and verify proofs, and operators build applications from lists of steps that may be out of order or reuse a suffix; non-trivial when a version met an item it must refuse; distinct by event"
    }
    fn prepare(&self) {
        prepare_pool();
    }
    fn warm(&self) {
        let _ = guard(pool);
    }
    fn generate(&self, seed: u64, _tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let mut sim = SimCase::draw(&mut rng);
        sim.field_gap = 0;
        let v = |rng: &mut Rng| rng.below(VERSIONS as u64) as usize;
        let events = (0..1 + rng.below(2))
            .map(|_| {
                let g = rng.next() >> 1;
                match rng.below(14) {
                    12 | 13 => Ev::Enlist { lists: (0..12).map(|_| gen_steps(&mut rng)).collect() },
                    0..=3 => Ev::Verify { item: rng.below(POOL as u64) as usize, v: v(&mut rng), g },
                    4 | 5 => Ev::Foreign { v: v(&mut rng), u: v(&mut rng), w: rng.below(50), g },
                    6 | 7 => Ev::Mixed { v: v(&mut rng), item: rng.below(4) as usize, left: rng.chance(1, 2), w: rng.below(50), g },
                    8 | 9 => Ev::Rogue { which: rng.below(4) as u8, w: 2 + rng.below(50), g },
                    10 => Ev::Rerandomize { v: v(&mut rng), item: rng.below(4) as usize, g },
                    _ => Ev::Resized { item: rng.below(POOL as u64) as usize, g },
                }
            })
            .collect();
        serde_json::to_value(Case { sim, events }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let mut o = Outcome::default();
        let _ = pool();
        let leaves: Vec<Option<Item>> = case
            .events
            .iter()
            .map(|e| if let Ev::Mixed { v, .. } = e { Some(leaf_of(*v)) } else { None })
            .collect();
        let (c, l) = (&case, &leaves);
        let (r, rep) = case.sim.run1(move || c.events.iter().zip(l).map(|(e, l)| event(e, l.as_ref())).collect::<Vec<_>>());
        o.absorb_report(&rep);
        o.decisions = rep.decisions.clone();
        let log = match r {
            Err(e) => {
                o.fail("panic", e);
                return o;
            }
            Ok(x) => x,
        };
        for (e, r) in case.events.iter().zip(log) {
            o.distinct.push(hash_str(&serde_json::to_string(e).unwrap()));
            match r {
                Err(e) => o.fail("honest-error", e),
                Ok(vs) => {
                    for (what, ok, v) in vs {
                        o.mix(hash_str(&format!("{what}{v:?}")));
                        if !ok {
                            o.nontrivial = true;
                            let f = if matches!(e, Ev::Enlist { .. }) { "fault.bad_registration" } else { "fault.version_skew" };
                            o.count(f, 1);
                        }
                        match (ok, v) {
                            (_, Err(p)) => o.fail("panic", format!("{what} panicked: {p}")),
                            (true, Ok(Ok(true))) => {}
                            (true, x) => o.fail("honest-rejected", format!("{what}: {x:?}")),
                            (false, Ok(Ok(true))) => o.fail("skew-accepted", format!("{what}: accepted")),
                            (false, _) => {}
                        }
                    }
                }
            }
        }
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = Vec::new();
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        for (i, e) in c.events.iter().enumerate() {
            if let Ev::Enlist { lists } = e {
                for j in 0..lists.len() {
                    let mut d = c.clone();
                    d.events[i] = if lists.len() > 1 {
                        Ev::Enlist { lists: vec![lists[j].clone()] }
                    } else if lists[0].len() > 1 {
                        Ev::Enlist { lists: vec![lists[0][..lists[0].len() - 1].to_vec()] }
                    } else {
                        continue;
                    };
                    v.push(serde_json::to_value(d).unwrap());
                }
            }
        }
        if c.events.len() > 1 {
            for i in 0..c.events.len() {
                let mut d = c.clone();
                d.events.remove(i);
                v.push(serde_json::to_value(d).unwrap());
            }
        }
        v.extend(shrink_sim(case));
        v
    }
    fn components(&self) -> Value {
        pcd_components()
    }
}
