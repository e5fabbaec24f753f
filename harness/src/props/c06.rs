//! Damage to a stored item survives every further step: no chain of fusing
//! and rerandomizing turns a rejected or mismatched item into an accepted one.

use super::c05::{self, Fault, any_change, apply_fault, draw_damage, draw_fault, kind_of, part_list, pcd_components, trace};
use crate::engine::*;
use crate::pcd::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Use {
    /// The damaged item is the left / right child of an honest step.
    Left { w: u64, other: usize },
    Right { w: u64, other: usize },
    Rerandomize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub item: usize,
    pub fault: Fault,
    pub uses: Vec<Use>,
    pub g: u64,
}

pub struct C06;

/// Parts that only the next fuse binds: commitments that must open to the
/// stored polynomials, and the blinding wires under them.
fn bound_by_fuse(name: &str) -> bool {
    (name.ends_with(".rx") && !name.ends_with("bridge.rx"))
        || (name.ends_with(".commitment") && !name.starts_with("f."))
        || matches!(
            name,
            "ab.a_poly" | "ab.b_poly" | "ab.a_commitment" | "ab.b_commitment" | "query.registry_xy_commitment"
        )
}

pub fn nested(name: &str) -> bool {
    matches!(name, "p.step_rx" | "p.endoscalar_rx" | "p.points_rx")
}

fn fused_parts() -> &'static [usize] {
    static L: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        (0..part_list().len())
            .filter(|k| {
                let n = part_list()[*k];
                any_change(n) || bound_by_fuse(n) || nested(n)
            })
            .collect()
    })
}

/// Uses an item as a child; the other child is honest and of the right kind.
pub fn use_item(app: &App, g: u64, i: &Item, u: &Use) -> ragu_core::Result<Item> {
    let p = &pool().items;
    let mut r = rng(g);
    let (w, other, left) = match u {
        Use::Rerandomize => return rerandomize(app, &mut r, i),
        Use::Left { w, other } => (*w, *other, true),
        Use::Right { w, other } => (*w, *other, false),
    };
    let fits = |s: &u8| {
        let (l, r, _) = SIG[*s as usize];
        (l, r) != (0, 0) && if left { l == i.kind } else { r == i.kind }
    };
    let steps: Vec<u8> = (0..STEPS as u8).filter(fits).collect();
    if steps.is_empty() {
        return rerandomize(app, &mut r, i);
    }
    let step = steps[other % steps.len()];
    let (lk, rk, _) = SIG[step as usize];
    let kind = if left { rk } else { lk };
    let c: Vec<usize> = (0..POOL).filter(|k| p[*k].kind == kind).collect();
    let h = &p[c[(other / steps.len()) % c.len()]];
    let (l, rt) = if left { (i, h) } else { (h, i) };
    apply(app, &mut r, step, plain(w), Some(l), Some(rt)).map(|x| x.0)
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "a run damages one stored item and then fuses or rerandomizes it one to three times on an honest node, verifying after every step; non-trivial when the damage hit a part the history must remember; distinct by (item, fault, uses)"
    }
    fn prepare(&self) {
        prepare_pool();
    }
    fn warm(&self) {
        let _ = guard(pool);
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let mut sim = SimCase::draw(&mut rng);
        sim.field_gap = 0;
        let item = rng.below(POOL as u64) as usize;
        let fault = if rng.chance(7, 10) {
            Fault::Part { part: *rng.pick(fused_parts()), damage: draw_damage(&mut rng, item) }
        } else {
            draw_fault(&mut rng, item)
        };
        let n = match rng.below(if tier == Tier::Quick { 8 } else { 5 }) {
            0 => 2,
            1 if tier == Tier::Thorough => 3,
            _ => 1,
        };
        let uses = (0..n)
            .map(|_| match rng.below(5) {
                0 | 1 => Use::Left { w: rng.below(100), other: rng.below(16) as usize },
                2 | 3 => Use::Right { w: rng.below(100), other: rng.below(16) as usize },
                _ => Use::Rerandomize,
            })
            .collect();
        serde_json::to_value(Case { sim, item, fault, uses, g: rng.next() }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let p = pool();
        let mut o = Outcome::default();
        let mut i = p.items[case.item].clone();
        let before = i.clone();
        let (what, must) = apply_fault(&mut i, &case.fault);
        let mut must = must;
        // A fuse also opens every commitment.
        let mut late = false;
        if let Fault::Part { part, .. } = &case.fault {
            let name = part_list()[*part];
            if must.is_none() && bound_by_fuse(name) && digest(&i) != digest(&before) {
                must = Some(format!("stored part {name} was damaged"));
                late = true;
            }
        }
        // Two unit-header children are the base case: a unit header states
        // nothing, so nothing about them is carried forward.
        if i.kind == 0 && matches!(case.uses[0], Use::Rerandomize) {
            must = None;
        }
        let honest = matches!(case.fault, Fault::Honest);
        let app = build_app();
        let sh = Shared(&app);
        let (uses, g) = (&case.uses, case.g);
        let i0 = &i;
        let (r, rep) = case.sim.run1(move || {
            let app = sh.get();
            let mut cur = i0.clone();
            let mut log = Vec::new();
            for (k, u) in uses.iter().enumerate() {
                match guard(|| use_item(app, g.wrapping_add(k as u64), &cur, u).map_err(|e| e.to_string())) {
                    Err(e) => {
                        log.push((Err(e), 0));
                        break;
                    }
                    Ok(Err(e)) => {
                        log.push((Ok(Err(e)), 0));
                        break;
                    }
                    Ok(Ok(x)) => {
                        let v = guard(|| verify(app, rng(g ^ 0x55), &x).map_err(|e| e.to_string()));
                        let d = simrt::quiet(|| digest(&x));
                        log.push((v, d));
                        cur = x;
                    }
                }
            }
            log
        });
        o.absorb_report(&rep);
        o.decisions = rep.decisions.clone();
        let log = match r {
            Ok(l) => l,
            Err(e) => {
                o.fail("panic", e);
                return o;
            }
        };
        o.distinct.push(hash_str(&serde_json::to_string(&(case.item, &case.fault, &case.uses)).unwrap()));
        if must.is_some() {
            o.nontrivial = true;
            o.count(&format!("fault.{}", kind_of(&case.fault)), 1);
            if late {
                o.count("damage_only_a_fuse_can_see", 1);
            }
        }
        for (k, (v, d)) in log.iter().enumerate() {
            o.mix(hash2(*d, hash_str(&format!("{v:?}"))));
            o.count("fuses", 1);
            match (v, &must) {
                (Err(e), _) => o.fail(
                    format!("fuse-panic:{what}"),
                    format!("step {k} panicked on an item whose {what} was damaged: {e}"),
                ),
                (Ok(Ok(true)), Some(why)) => o.fail(
                    format!("laundered:{what}"),
                    format!("after {} step(s) verify accepted although {why}", k + 1),
                ),
                (Ok(x), _) if honest && *x != Ok(true) => {
                    o.fail("honest-rejected", format!("an undamaged history failed at step {k}: {x:?}"))
                }
                _ => {}
            }
        }
        let _ = (c05::any_change as fn(&str) -> bool, trace as fn(&str) -> bool);
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = Vec::new();
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        if c.uses.len() > 1 {
            let mut d = c.clone();
            d.uses.truncate(c.uses.len() - 1);
            v.push(serde_json::to_value(d).unwrap());
            let mut d = c.clone();
            d.uses.remove(0);
            v.push(serde_json::to_value(d).unwrap());
        }
        v.extend(shrink_sim(case));
        v
    }
    fn components(&self) -> Value {
        pcd_components()
    }
}
