//! Storage and transport faults on proof-carrying data are caught by `verify`.

use crate::engine::*;
use crate::pcd::*;
use ff::Field;
use ragu_circuits::polynomials::Rank;
use ragu_pasta::Fp;
use ragu_pcd::sim::Part;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// Damage to one stored part.
    Part { part: usize, damage: Damage },
    /// The accompanying data is altered (element, delta).
    Data { at: usize, delta: u64 },
    /// The data of another item arrives with this proof.
    Misdelivered { donor: usize },
    /// The proof arrives labelled with another header type.
    Relabelled { kind: u8 },
    /// A torn write of the whole item: parts below `at` come from another.
    TornItem { at: usize, donor: usize },
    /// No damage (control).
    Honest,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Try {
    pub item: usize,
    pub fault: Fault,
    pub g: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub tries: Vec<Try>,
}

pub struct C05;

pub fn draw_damage(rng: &mut Rng, item: usize) -> Damage {
    let donor = loop {
        let d = rng.below(POOL as u64);
        if d as usize != item {
            break d;
        }
    };
    let at = if rng.chance(1, 4) { rng.below(4) } else { rng.below(1 << 14) };
    match rng.below(13) {
        12 => Damage::Noise { seed: rng.next() >> 1 },
        0..=4 => Damage::Element { at, delta: if rng.chance(1, 2) { 0 } else { rng.below(1 << 40) } },
        5 => Damage::Swap { at },
        6 => Damage::Zeroed { at: if rng.chance(1, 2) { 0 } else { at }, len: 1 << rng.below(12) },
        7 => Damage::Torn { at, donor },
        8 | 9 => Damage::Foreign { donor },
        10 => Damage::Scaled { by: rng.below(5) },
        _ => Damage::Resized { grow: rng.chance(1, 2) },
    }
}

/// Parts whose every change `verify` must notice.
pub fn any_change(name: &str) -> bool {
    name.starts_with("challenges.")
        || name.ends_with(".bridge.commitment")
        || matches!(
            name,
            "application.circuit_id"
                | "application.left_header"
                | "application.right_header"
                | "ab.c"
                | "query.registry_xy_poly"
                | "p.poly"
                | "p.commitment"
                | "p.v"
        )
}

/// Trace polynomials: a change on a product wire breaks its gate equation.
pub fn trace(name: &str) -> bool {
    (name.ends_with(".rx") && !name.ends_with("bridge.rx"))
        || matches!(name, "p.step_rx" | "p.endoscalar_rx" | "p.points_rx")
}

/// The accumulated claim <a, reverse(b)> = c, from its definition.
fn claim_holds(p: &Pf) -> bool {
    let (mut a, mut b, mut c) = (vec![], vec![], Fp::ZERO);
    p.clone().sim_parts(&mut |n, part| match (n, part) {
        ("ab.a_poly", Part::Poly(x)) => a = x.iter_coeffs().collect(),
        ("ab.b_poly", Part::Poly(x)) => b = x.iter_coeffs().collect(),
        ("ab.c", Part::Scalar(x)) => c = *x,
        _ => {}
    });
    let n = R::num_coeffs();
    a.resize(n, Fp::ZERO);
    b.resize(n, Fp::ZERO);
    let dot = a.iter().zip(b.iter().rev()).fold(Fp::ZERO, |s, (x, y)| s + *x * *y);
    dot == c
}

/// Applies the fault; `Some(reason)` when `verify` must now reject.
pub fn apply_fault(i: &mut Item, f: &Fault) -> (String, Option<String>) {
    match f {
        Fault::Honest => ("none".into(), None),
        Fault::Data { at, delta } => {
            if i.data.is_empty() {
                return ("data".into(), None);
            }
            let k = at % i.data.len();
            i.data[k] += Fp::from(1 + *delta);
            ("data".into(), Some(format!("element {k} of the data was altered")))
        }
        Fault::Misdelivered { donor } => {
            let d = &pool().items[*donor];
            if d.kind != i.kind || d.data == i.data {
                return ("misdelivered".into(), None);
            }
            i.data = d.data.clone();
            ("misdelivered".into(), Some("the data belongs to another proof".into()))
        }
        Fault::Relabelled { kind } => {
            if *kind == i.kind {
                return ("relabelled".into(), None);
            }
            let was = i.kind;
            i.kind = *kind;
            i.data.resize(WIDTH[*kind as usize], Fp::ZERO);
            ("relabelled".into(), Some(format!("a proof for header type {was} arrives as type {kind}")))
        }
        Fault::TornItem { at, donor } => {
            let d = &pool().items[*donor].proof;
            let dumped = dump(d);
            let n = dumped.len();
            let at = 1 + at % (n - 1);
            let mut k = 0;
            let (mut low, mut high) = (false, false);
            i.proof.sim_parts(&mut |name, mut part| {
                let before = part_bytes(&part);
                let differs = dumped[k].1 != before;
                // Transcript challenges hash everything before them, so a
                // proof torn between them cannot be consistent.
                if k < at {
                    load_part(&mut part, &dumped[k].1);
                    low |= differs && (any_change(name) || name.ends_with(".rx"));
                } else {
                    high |= differs && (any_change(name) || name.ends_with(".rx"));
                }
                k += 1;
            });
            let _ = (low, high);
            ("torn-item".into(), (low && high).then(|| format!("parts below {at} of {n} come from another item")))
        }
        Fault::Part { part, damage } => {
            let donor = match damage {
                Damage::Torn { donor, .. } | Damage::Foreign { donor } => *donor as usize,
                _ => 0,
            };
            let (name, changed, product) = damage_part(&mut i.proof, *part, damage, &pool().items[donor].proof);
            let must = changed
                && (any_change(name)
                    || (trace(name) && product)
                    || (name.ends_with("rx") && matches!(damage, Damage::Noise { .. }))
                    || (matches!(name, "ab.a_poly" | "ab.b_poly") && !claim_holds(&i.proof)));
            (name.to_string(), must.then(|| format!("stored part {name} was damaged")))
        }
    }
}

pub fn kind_of(f: &Fault) -> &'static str {
    match f {
        Fault::Honest => "none",
        Fault::Data { .. } => "data_altered",
        Fault::Misdelivered { .. } => "data_misdelivered",
        Fault::Relabelled { .. } => "relabelled",
        Fault::TornItem { .. } => "torn_item",
        Fault::Part { damage, .. } => match damage {
            Damage::Element { .. } => "element_corrupted",
            Damage::Swap { .. } => "elements_swapped",
            Damage::Zeroed { .. } => "sectors_zeroed",
            Damage::Torn { .. } => "torn_part",
            Damage::Foreign { .. } => "misdirected_read",
            Damage::Scaled { .. } => "part_scaled",
            Damage::Resized { .. } => "truncated_or_extended",
            Damage::Noise { .. } => "noise",
        },
    }
}

pub fn draw_fault(rng: &mut Rng, item: usize) -> Fault {
    match rng.below(20) {
        0 => Fault::Honest,
        1 | 2 => Fault::Data { at: rng.below(3) as usize, delta: if rng.chance(1, 2) { 0 } else { rng.next() >> 1 } },
        3 => Fault::Misdelivered { donor: rng.below(POOL as u64) as usize },
        4 | 5 => Fault::Relabelled { kind: rng.below(5) as u8 },
        6 => Fault::TornItem { at: rng.below(100) as usize, donor: rng.below(POOL as u64) as usize },
        7 | 8 => Fault::Part { part: *rng.pick(traces()), damage: Damage::Noise { seed: rng.next() >> 1 } },
        9..=17 => Fault::Part { part: *rng.pick(bound_parts()), damage: draw_damage(rng, item) },
        _ => Fault::Part { part: rng.below(part_list().len() as u64) as usize, damage: draw_damage(rng, item) },
    }
}

pub fn part_list() -> &'static [&'static str] {
    static L: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    L.get_or_init(|| part_names(&build_app().sim_trivial_proof()))
}

/// Every trace, of stages, bridges and circuits alike.
fn traces() -> &'static [usize] {
    static L: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    L.get_or_init(|| (0..part_list().len()).filter(|k| part_list()[*k].ends_with("rx")).collect())
}

fn bound_parts() -> &'static [usize] {
    static L: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        (0..part_list().len())
            .filter(|k| {
                let n = part_list()[*k];
                any_change(n) || trace(n) || matches!(n, "ab.a_poly" | "ab.b_poly")
            })
            .collect()
    })
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "a run subjects honest items to storage and transport faults and verifies them; non-trivial when a fault changed a part verification must notice; distinct by (item, fault)"
    }
    fn prepare(&self) {
        prepare_pool();
    }
    fn warm(&self) {
        let _ = guard(pool);
    }
    fn generate(&self, seed: u64, _tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let mut sim = SimCase::draw(&mut rng);
        sim.field_gap = 0;
        let tries = (0..3)
            .map(|_| {
                let item = rng.below(POOL as u64) as usize;
                Try { item, fault: draw_fault(&mut rng, item), g: rng.next() }
            })
            .collect();
        serde_json::to_value(Case { sim, tries }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let p = pool();
        let mut o = Outcome::default();
        let mut prepared = Vec::new();
        for t in &case.tries {
            let mut i = p.items[t.item].clone();
            let (what, must) = apply_fault(&mut i, &t.fault);
            prepared.push((t, i, what, must));
        }
        let items: Vec<&(&Try, Item, String, Option<String>)> = prepared.iter().collect();
        let app = Shared(&p.app);
        let (r, rep) = case.sim.run1(move || {
            let app = &app;
            items.iter().map(|(t, i, ..)| guard(|| verify(app.get(), rng(t.g), i).map_err(|e| e.to_string()))).collect::<Vec<_>>()
        });
        o.absorb_report(&rep);
        o.decisions = rep.decisions.clone();
        let verdicts = match r {
            Ok(v) => v,
            Err(e) => {
                o.fail("panic", e);
                return o;
            }
        };
        for ((t, _, what, must), v) in prepared.iter().zip(verdicts) {
            let id = hash_str(&serde_json::to_string(&(t.item, &t.fault)).unwrap());
            if must.is_some() {
                o.nontrivial = true;
                o.count(&format!("fault.{}", kind_of(&t.fault)), 1);
            }
            o.distinct.push(id);
            let honest = matches!(t.fault, Fault::Honest);
            match (&v, must) {
                (Err(e), _) => o.fail(format!("verify-panic:{what}"), format!("verify panicked on a damaged item ({what}): {e}")),
                (Ok(Ok(true)), Some(why)) => o.fail(format!("accepted:{what}"), format!("verify accepted although {why}")),
                (Ok(Ok(false)), _) if honest => o.fail("honest-rejected", "verify rejected an undamaged item"),
                (Ok(Err(e)), _) if honest => o.fail("honest-error", format!("verify failed on an undamaged item: {e}")),
                _ => {}
            }
            o.count(
                match &v {
                    Ok(Ok(true)) => "verdict.accepted",
                    Ok(Ok(false)) => "verdict.rejected",
                    _ => "verdict.error",
                },
                1,
            );
            o.mix(hash_str(&format!("{v:?}")));
        }
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = Vec::new();
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        for i in 0..c.tries.len() {
            if c.tries.len() > 1 {
                let mut d = c.clone();
                d.tries = vec![c.tries[i].clone()];
                v.push(serde_json::to_value(d).unwrap());
            }
        }
        v.extend(shrink_sim(case));
        v
    }
    fn components(&self) -> Value {
        pcd_components()
    }
}

pub fn pcd_components() -> Value {
    json!({
        "real": ["ragu_pcd, ragu_circuits, ragu_primitives, ragu_core, ragu_arithmetic, ragu_pasta compiled from /repo's working tree with feature multicore and cfg ragu_sim"],
        "stub": ["rayon (deterministic simulator shims/simrt)", "ff/group/pasta_curves/blake2b_simd (offline re-implementations in shims/)",
                 "storage, transport and nodes (harness/src/pcd.rs: the parts of a proof as bytes)"]
    })
}
