//! Rerandomizing keeps data and verdict and leaves nothing of the original.

use super::c05::{Fault, apply_fault, draw_fault, kind_of, pcd_components};
use crate::engine::*;
use crate::pcd::*;
use ragu_circuits::polynomials::Rank;
use ragu_pcd::sim::Part;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub item: usize,
    /// Damage before rerandomizing; the verdict must survive.
    pub fault: Fault,
    /// Randomness of the two rerandomizations.
    pub g: [u64; 2],
    /// Whether the node restarts (losing its cached state) in between.
    pub crash: bool,
    /// Rerandomize the result once more.
    pub again: bool,
    /// Instead: follow the entropy into this trace (index among the traces).
    #[serde(default)]
    pub follow: Option<usize>,
}

pub struct C08;

/// Blinding wire (the highest coefficient) of every trace polynomial.
fn blinds(p: &Pf) -> Vec<(String, Vec<u8>)> {
    use ff::PrimeField;
    let mut v = Vec::new();
    let top = R::num_coeffs() - 1;
    p.clone().sim_parts(&mut |name, part| {
        if !name.ends_with("rx") {
            return;
        }
        match part {
            Part::Poly(x) => {
                v.push((name.into(), x.iter_coeffs().nth(top).map(|c| c.to_repr().to_vec()).unwrap_or(vec![0; 32])))
            }
            Part::NestedPoly(x) => {
                v.push((name.into(), x.iter_coeffs().nth(top).map(|c| c.to_repr().to_vec()).unwrap_or(vec![0; 32])))
            }
            _ => {}
        }
    });
    v
}

/// Parts that say which step ran and which headers it saw.
fn public(name: &str) -> bool {
    matches!(name, "application.circuit_id" | "application.left_header" | "application.right_header")
}

/// Randomness that can be switched to another stream at one draw, for that
/// draw only or from there on.
struct Switch {
    a: rand::rngs::StdRng,
    b: rand::rngs::StdRng,
    at: u64,
    only: bool,
    n: u64,
}
impl Switch {
    fn new(seed: u64, at: u64, only: bool) -> Self {
        Switch { a: rng(seed), b: rng(seed ^ 0xABCDEF), at, only, n: 0 }
    }
    fn fill(&mut self, d: &mut [u8]) {
        use rand::TryRng;
        let k = self.n;
        self.n += 1;
        let mut other = d.to_vec();
        let _ = self.a.try_fill_bytes(d);
        let _ = self.b.try_fill_bytes(&mut other);
        if if self.only { k == self.at } else { k >= self.at } {
            d.copy_from_slice(&other);
        }
    }
}
impl rand::TryRng for Switch {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        let mut b = [0; 4];
        self.fill(&mut b);
        Ok(u32::from_le_bytes(b))
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        let mut b = [0; 8];
        self.fill(&mut b);
        Ok(u64::from_le_bytes(b))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> {
        self.fill(d);
        Ok(())
    }
}
impl rand::TryCryptoRng for Switch {}

/// The transcript challenge squeezed before a trace is committed to.
fn before(name: &str) -> &'static str {
    match name.split('.').next().unwrap() {
        "s_prime" => "challenges.w",
        "inner_error" => "challenges.y",
        "outer_error" => "challenges.mu",
        "ab" => "challenges.mu_prime",
        "query" => "challenges.x",
        "f" => "challenges.alpha",
        "eval" => "challenges.u",
        "p" | "circuits" => "challenges.pre_beta",
        "preamble" => "application.rx",
        _ => "application.left_header",
    }
}

/// Values of the native and the nested field stored outside the blinding wires.
fn elsewhere(p: &Pf, data: &[ragu_pasta::Fp]) -> std::collections::HashSet<Vec<u8>> {
    use ff::PrimeField;
    let mut v = std::collections::HashSet::new();
    for d in data {
        v.insert(d.to_repr().to_vec());
    }
    let top = R::num_coeffs() - 1;
    p.clone().sim_parts(&mut |name, part| match part {
        Part::Header(h) => v.extend(h.iter().map(|x| x.to_repr().to_vec())),
        Part::Scalar(x) => {
            v.insert(x.to_repr().to_vec());
        }
        Part::Poly(x) => {
            let n = if name.ends_with("rx") { top } else { usize::MAX };
            v.extend(x.iter_coeffs().take(n).map(|c| c.to_repr().to_vec()))
        }
        Part::NestedPoly(x) => v.extend(x.iter_coeffs().take(top).map(|c| c.to_repr().to_vec())),
        _ => {}
    });
    v
}

/// One draw of entropy must reach the blinding of trace `k`, and it must not be
/// one that was already visible in the transcript before that trace.
fn follow(case: &Case, i: &Item, o: &mut Outcome) {
    let c = case;
    let (r, rep) = case.sim.run1(move || -> Result<Result<(u64, String), String>, String> {
        let app = build_app();
        // The node has its cached proof before we watch.
        rerandomize(&app, &mut rng(c.g[1]), i).map_err(|e| e.to_string())?;
        let go = |at: u64, only: bool| -> Result<(u64, Vec<(String, Vec<u8>)>, Vec<(String, Vec<u8>)>), String> {
            let mut s = Switch::new(c.g[0], at, only);
            let x = rerandomize(&app, &mut s, i).map_err(|e| e.to_string())?;
            Ok((s.n, blinds(&x.proof), dump(&x.proof)))
        };
        let (total, base, parts) = go(u64::MAX, false)?;
        let k = c.follow.unwrap() % base.len();
        let name = base[k].0.clone();
        // The last draw this blinding depends on.
        let (mut lo, mut hi) = (0, total);
        if go(0, false)?.1[k] == base[k] {
            return Ok(Err(format!("the blinding of {name} does not depend on the prover's randomness")));
        }
        while hi - lo > 1 {
            let mid = (lo + hi) / 2;
            if go(mid, false)?.1[k] != base[k] {
                lo = mid
            } else {
                hi = mid
            }
        }
        let (_, b, p) = go(lo, true)?;
        if b[k] == base[k] {
            return Ok(Err(format!("no draw reaches the blinding of {name} alone")));
        }
        let earlier = |v: &[(String, Vec<u8>)]| v.iter().find(|x| x.0 == before(&name)).unwrap().1.clone();
        if earlier(&p) != earlier(&parts) {
            return Ok(Err(format!("{name} is blinded with what the transcript already showed")));
        }
        Ok(Ok((lo, name)))
    });
    o.absorb_report(&rep);
    o.decisions = rep.decisions.clone();
    match r {
        Err(e) => o.fail("panic", format!("rerandomizing panicked: {e}")),
        Ok(Err(e)) => o.fail("honest-error", format!("rerandomizing an honest item failed: {e}")),
        Ok(Ok(Err(e))) => o.fail("unblinded", e),
        Ok(Ok(Ok((at, name)))) => {
            o.nontrivial = true;
            o.count("probe.entropy_followed", 1);
            o.count("fault.entropy_switched", 1);
            o.distinct.push(hash2(hash_str(&name), c.item as u64));
            o.mix(hash2(at, hash_str(&name)));
        }
    }
}

type Out = Result<(Vec<Item>, Vec<Result<bool, String>>), String>;

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "a run rerandomizes one (possibly damaged) item twice, with an optional node restart in between, and compares data, verdicts and stored forms; non-trivial when both rerandomizations finished; distinct by case"
    }
    fn prepare(&self) {
        prepare_pool();
    }
    fn warm(&self) {
        let _ = guard(pool);
    }
    fn generate(&self, seed: u64, _tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let mut sim = SimCase::draw(&mut rng);
        sim.field_gap = 0;
        let item = rng.below(POOL as u64) as usize;
        let fault = if rng.chance(1, 3) { draw_fault(&mut rng, item) } else { Fault::Honest };
        let case = Case {
            sim,
            item,
            fault,
            g: [rng.next() >> 1, rng.next() >> 1],
            crash: rng.chance(1, 3),
            again: rng.chance(1, 3),
            follow: None,
        };
        let mut case = case;
        if rng.chance(1, 8) {
            case.follow = Some(rng.below(64) as usize);
            case.fault = Fault::Honest;
        }
        serde_json::to_value(case)
        .unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let mut o = Outcome::default();
        let mut i = pool().items[case.item].clone();
        if case.follow.is_some() {
            follow(&case, &i, &mut o);
            return o;
        }
        let (what, must) = apply_fault(&mut i, &case.fault);
        let c = &case;
        let i0 = &i;
        let (r, rep) = case.sim.run1(move || -> Out {
            let mut app = build_app();
            let mut items = Vec::new();
            let mut verdicts = Vec::new();
            for k in 0..2 {
                if k == 1 && c.crash {
                    app = build_app();
                }
                let mut x = rerandomize(&app, &mut rng(c.g[k]), i0).map_err(|e| e.to_string())?;
                if k == 1 && c.again {
                    x = rerandomize(&app, &mut rng(c.g[0] ^ 0x77), &x).map_err(|e| e.to_string())?;
                }
                verdicts.push(verify(&app, rng(9 + k as u64), &x).map_err(|e| e.to_string()));
                items.push(x);
            }
            Ok((items, verdicts))
        });
        o.absorb_report(&rep);
        o.decisions = rep.decisions.clone();
        o.distinct.push(hash_str(&serde_json::to_string(&(case.item, &case.fault, case.g, case.crash, case.again)).unwrap()));
        let honest = matches!(case.fault, Fault::Honest);
        if case.crash {
            o.count("fault.crash_restart", 1);
        }
        if must.is_some() {
            o.count(&format!("fault.{}", kind_of(&case.fault)), 1);
        }
        let (items, verdicts) = match r {
            Err(e) => {
                o.fail("panic", format!("rerandomizing panicked ({what}): {e}"));
                return o;
            }
            Ok(Err(e)) => {
                o.mix(hash_str(&e));
                if honest {
                    o.fail("honest-error", format!("rerandomizing an honest item failed: {e}"));
                }
                return o;
            }
            Ok(Ok(x)) => x,
        };
        o.nontrivial = true;
        for x in &items {
            if x.data != i.data || x.kind != i.kind {
                o.fail("data-changed", "rerandomizing changed the data");
            }
            o.mix(digest(x));
        }
        for v in &verdicts {
            o.mix(hash_str(&format!("{v:?}")));
            if honest && *v != Ok(true) {
                o.fail("verdict-changed", format!("an accepted item was rerandomized into {v:?}"));
            }
            // The unit header states nothing, so it has nothing to preserve.
            if must.is_some() && i.kind != 0 && *v == Ok(true) && !super::c06::nested(&what) {
                o.fail("verdict-changed", format!("a rejected item ({what} damaged) was rerandomized into an accepted one"));
            }
        }
        // Nothing of the randomized parts may repeat.
        let orig = dump(&i.proof);
        let (a, b) = (dump(&items[0].proof), dump(&items[1].proof));
        for k in 0..a.len() {
            let name = &a[k].0;
            if name == "application.circuit_id" && a[k].1 != b[k].1 {
                o.fail("provenance-visible", "two rerandomized items name different steps");
            }
            if public(name) {
                continue;
            }
            if a[k].1 == b[k].1 {
                o.fail("not-fresh", format!("two rerandomizations of one item share {name}"));
            }
            if a[k].1 == orig[k].1 || b[k].1 == orig[k].1 {
                o.fail("not-fresh", format!("{name} of the original survives rerandomizing"));
            }
            if a[k].1.len() != b[k].1.len() {
                o.fail("provenance-visible", format!("the stored size of {name} differs between rerandomizations"));
            }
            o.count("parts_compared", 1);
        }
        // Every trace carries its own blinding.
        let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
        for x in &items {
            let other = elsewhere(&x.proof, &x.data);
            for (name, v) in blinds(&x.proof) {
                if other.contains(&v) && honest {
                    o.fail("unblinded", format!("the blinding of {name} is a value found elsewhere in the item"));
                }
                if v.iter().all(|b| *b == 0) {
                    o.fail("unblinded", format!("{name} carries no blinding"));
                }
                if let Some(other) = seen.insert(v, name.clone()) {
                    o.fail("unblinded", format!("{name} and {other} carry the same blinding"));
                }
            }
        }
        // Whatever the item, a rerandomized proof names the same step.
        let id = &a.iter().find(|x| x.0 == "application.circuit_id").unwrap().1;
        if *id != dump(&pool().items[RERAND].proof)[0].1 {
            o.fail("provenance-visible", "a rerandomized item names a step of its own");
        }
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = Vec::new();
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        for f in [
            |d: &mut Case| d.fault = Fault::Honest,
            |d: &mut Case| d.crash = false,
            |d: &mut Case| d.again = false,
        ] {
            let mut d = c.clone();
            f(&mut d);
            let d = serde_json::to_value(d).unwrap();
            if d != *case {
                v.push(d);
            }
        }
        v.extend(shrink_sim(case));
        v
    }
    fn components(&self) -> Value {
        pcd_components()
    }
}
