//! A lying prover cannot get a false claim accepted: whatever one participant
//! tells any stage of a fuse, an item that rests on the lie is refused, and
//! everything a stage commits to decides the challenges that follow it.

use super::c05::pcd_components;
use super::c06::{Use, use_item};
use crate::engine::*;
use crate::pcd::*;
use ff::Field;
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::{Rank, sparse};
use ragu_circuits::registry::CircuitIndex;
use ragu_pasta::{EqAffine, Fp, Pasta};
use ragu_pcd::liar::sim_liar;
use ragu_pcd::sim::Part;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

type Poly = sparse::Polynomial<Fp, R>;

pub const CHALLENGES: [&str; 11] =
    ["w", "y", "z", "mu", "nu", "mu_prime", "nu_prime", "x", "alpha", "u", "pre_beta"];
pub const RX: [&str; 11] = [
    "application.rx",
    "circuits.hashes_1.rx",
    "circuits.hashes_2.rx",
    "circuits.inner_collapse.rx",
    "circuits.outer_collapse.rx",
    "circuits.compute_v.rx",
    "preamble.rx",
    "inner_error.rx",
    "outer_error.rx",
    "query.rx",
    "eval.rx",
];
/// What the preamble states about a child.
pub const FACTS: [&str; 25] = [
    "application.left_header",
    "application.right_header",
    "application.circuit_id",
    "preamble.bridge.commitment",
    "s_prime.bridge.commitment",
    "inner_error.bridge.commitment",
    "outer_error.bridge.commitment",
    "ab.bridge.commitment",
    "ab.c",
    "query.bridge.commitment",
    "f.bridge.commitment",
    "eval.bridge.commitment",
    "p.v",
    "challenges.w",
    "challenges.y",
    "challenges.z",
    "challenges.mu",
    "challenges.nu",
    "challenges.mu_prime",
    "challenges.nu_prime",
    "challenges.x",
    "challenges.alpha",
    "challenges.u",
    "challenges.pre_beta",
    "",
];
/// Commitments of a child that only the transcript sees in the preamble.
pub const BRIDGED: [&str; 6] = [
    "application.commitment",
    "circuits.hashes_1.commitment",
    "circuits.hashes_2.commitment",
    "circuits.inner_collapse.commitment",
    "circuits.outer_collapse.commitment",
    "circuits.compute_v.commitment",
];
/// Which parts of a child each later stage looks at.
pub const LOOKS: [(&str, &[&str]); 6] = [
    ("s_prime", &["challenges.x"]),
    ("claims", &["ab.a_poly", "ab.b_poly", "application.circuit_id"]),
    ("query", &["ab.a_poly", "ab.b_poly", "query.registry_xy_poly", "application.circuit_id", "challenges.x"]),
    (
        "f",
        &[
            "p.poly",
            "challenges.u",
            "query.registry_xy_poly",
            "challenges.y",
            "challenges.x",
            "application.circuit_id",
            "ab.a_poly",
            "ab.b_poly",
        ],
    ),
    ("eval", &["ab.a_poly", "ab.b_poly", "query.registry_xy_poly", "p.poly"]),
    ("p", &["ab.a_poly", "ab.b_poly", "query.registry_xy_poly", "p.poly"]),
];

/// A polynomial some later equation queries.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Q {
    ChildP,
    ChildXy,
    ChildA,
    ChildB,
    ChildRx(usize),
    Wx,
    Wy,
    Xy,
    A,
    B,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Lie {
    Honest,
    /// A challenge other than the one the transcript gives.
    Challenge { at: usize, delta: u64 },
    /// The transcript hears something no stage says (never zero: absorbing
    /// a zero last is absorbing nothing).
    Extra { v: u64 },
    /// One number told wrong.
    Value { at: String, i: usize, delta: u64 },
    /// One of the claims' cross terms or values told wrong, and later values
    /// told so that they agree.
    Claims { at: String, i: usize, delta: u64, collapsed: bool, c: bool },
    /// A child's output header told to the preamble (and to `k(y)`).
    Header { side: usize, el: usize, delta: u64, ky: bool },
    /// A fact about a child told to the preamble (and to `k(y)`).
    Fact { side: usize, part: String, delta: u64, ky: bool },
    /// A child whose trace does not satisfy its circuit, with `k(y)` told so
    /// that its claim holds.
    Damaged { side: usize, hashes: bool, at: usize, delta: u64 },
    /// A child made with a challenge of its own choosing, told as honest.
    Mischallenged { side: usize, delta: u64 },
    /// A polynomial exchanged so that exactly one query about it is false.
    Query { side: usize, q: Q, point: usize, delta: u64 },
    /// `a` or `b` changed so that their product stays what it was.
    Noise { b: bool, at: usize, by: usize, delta: u64 },
    /// Quotient polynomial told wrong.
    F { at: usize, delta: u64 },
    /// A point or partial sum of the final commitment told wrong.
    Point { sum: bool, at: usize },
    /// The final commitment combined with another scalar.
    Endoscalar { delta: u64 },
    /// One stage sees another version of a child than all others.
    Look { phase: usize, side: usize, part: String, at: usize, delta: u64 },
    /// A false wiring polynomial, and everything after it made to agree.
    Chain { start: usize, side: usize, delta: u64 },
    /// The final polynomial exchanged after the fact.
    Post { at: usize, delta: u64, v: bool },
    /// A header told wrong everywhere, with the child's trace made to fit.
    Forge { side: usize, el: usize, delta: u64, at: usize },
    /// An index outside the domain, with the child's trace made to fit.
    ForgeIndex { side: usize, index: u32, at: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub step: u8,
    pub l: usize,
    pub r: usize,
    pub w: u64,
    pub g: u64,
    pub lie: Lie,
    /// Compare the challenges with an honest run's.
    pub depend: bool,
    /// Honest nodes then use the item.
    pub then: Vec<Use>,
}

pub struct C11;

// --- telling ---------------------------------------------------------------

#[derive(Default)]
struct State {
    told: bool,
    /// Challenges as the transcript gave them.
    raw: Vec<Fp>,
    /// Challenges as told.
    used: Vec<Fp>,
    /// `u`, `y`, `x` and the index of each child.
    facts: [[Fp; 4]; 2],
    ky: Vec<Fp>,
    actual: Vec<Fp>,
    /// Added to the adapted coefficient of a forged trace.
    adapt: Fp,
    /// By how much a false `wy` differs from the true one.
    gap: Vec<Fp>,
    stop: bool,
}

impl State {
    fn used(&self, name: &str) -> Fp {
        let k = CHALLENGES.iter().position(|c| *c == name).unwrap();
        self.used.get(k).copied().unwrap_or(Fp::ZERO)
    }
    fn points(&self, q: Q, side: usize) -> Vec<Fp> {
        let (w, y, z, x) = (self.used("w"), self.used("y"), self.used("z"), self.used("x"));
        let [f0, f1] = &self.facts;
        match q {
            Q::ChildP => vec![self.facts[side][0]],
            Q::ChildXy => vec![w],
            Q::ChildA | Q::ChildRx(_) | Q::A => vec![x * z],
            Q::ChildB | Q::B => vec![x],
            Q::Wx => vec![self.facts[side][1], y],
            Q::Wy => vec![f0[2], f1[2], x],
            Q::Xy => {
                let mut v = vec![w, f0[3], f1[3]];
                v.extend((0..13).map(|k| CircuitIndex::from_u32(k).omega_j::<Fp>()));
                v
            }
        }
    }
}

/// `value` at `points[target]`, zero at the other points.
fn bump(points: &[Fp], target: usize, value: Fp) -> Vec<Fp> {
    let t = points[target];
    let mut c = vec![value];
    for p in points.iter().filter(|p| **p != t) {
        let inv = (t - p).invert().unwrap();
        let mut n = vec![Fp::ZERO; c.len() + 1];
        for (i, a) in c.iter().enumerate() {
            n[i + 1] += *a * inv;
            n[i] -= *a * *p * inv;
        }
        c = n;
    }
    c
}

fn add(p: &mut Poly, c: &[Fp]) {
    let mut v: Vec<Fp> = p.iter_coeffs().collect();
    v.resize(R::num_coeffs().max(v.len()), Fp::ZERO);
    for (a, b) in v.iter_mut().zip(c) {
        *a += *b;
    }
    *p = Poly::from_coeffs(v);
}

fn at(n: usize, delta: u64) -> Vec<Fp> {
    let mut v = vec![Fp::ZERO; n % R::num_coeffs() + 1];
    *v.last_mut().unwrap() = Fp::from(1 + delta);
    v
}

fn commit(p: &Poly) -> EqAffine {
    p.commit_to_affine(Pasta::host_generators(Pasta::baked()))
}

/// Changes a polynomial of a stored proof and, when asked, its commitment.
fn edit(pf: &mut Pf, name: &str, c: &[Fp], recommit: bool) {
    let com = name.replace("_poly", "_commitment").replace(".rx", ".commitment").replace("p.poly", "p.commitment");
    let mut new = None;
    pf.sim_parts(&mut |n, part| {
        if n == name {
            if let Part::Poly(p) = part {
                add(p, c);
                if recommit {
                    new = Some(commit(p));
                }
            }
        }
    });
    if let Some(new) = new {
        pf.sim_parts(&mut |n, part| {
            if n == com {
                if let Part::Point(p) = part {
                    *p = new;
                }
            }
        });
    }
}

/// Changes any stored part a little.
fn alter(pf: &mut Pf, name: &str, el: usize, delta: u64) {
    pf.sim_parts(&mut |n, part| {
        if n == name {
            match part {
                Part::Circuit(c) => {
                    let k = usize::from(*c);
                    *c = CircuitIndex::from_u32(if k == 15 { 16 } else { 15 });
                }
                Part::Header(h) => {
                    let m = h.len();
                    h[el % m] += Fp::from(1 + delta)
                }
                Part::Scalar(s) => *s += Fp::from(1 + delta),
                Part::Poly(p) => add(p, &at(el, delta)),
                Part::NestedPoly(_) => {}
                Part::Point(p) => *p = (-*p).into(),
                Part::NestedPoint(p) => *p = (-*p).into(),
            }
        }
    });
}

fn scalar(pf: &Pf, name: &str) -> Fp {
    let mut v = Fp::ZERO;
    pf.clone().sim_parts(&mut |n, part| {
        if n == name {
            match part {
                Part::Scalar(s) => v = *s,
                Part::Circuit(c) => v = c.omega_j(),
                _ => {}
            }
        }
    });
    v
}

const LATE: [&str; 3] = ["f", "eval", "p"];
const AFTER: [&str; 5] = ["claims", "query", "f", "eval", "p"];

fn child_part(q: Q) -> Option<&'static str> {
    Some(match q {
        Q::ChildP => "p.poly",
        Q::ChildXy => "query.registry_xy_poly",
        Q::ChildA => "ab.a_poly",
        Q::ChildB => "ab.b_poly",
        Q::ChildRx(k) => RX[k],
        _ => return None,
    })
}

fn late_part(q: Q) -> Option<&'static str> {
    Some(match q {
        Q::Wx => "late.registry_wx",
        Q::Wy => "late.registry_wy",
        Q::Xy => "late.registry_xy",
        Q::A => "late.a",
        Q::B => "late.b",
        _ => return None,
    })
}

/// Tells (or does not tell) the lie at one point of the fuse.
fn speak(s: &mut State, lie: &Lie, name: &str, i: usize, v: &mut dyn Any, agree: &dyn Any) {
    // What the liar learns.
    if name == "preamble" {
        if let Some(p) = v.downcast_ref::<Pf>() {
            s.facts[i] = ["challenges.u", "challenges.y", "challenges.x", "application.circuit_id"].map(|n| scalar(p, n));
        }
    }
    let challenge = CHALLENGES.iter().position(|c| *c == name);
    if challenge.is_some() {
        s.raw.push(*v.downcast_ref::<Fp>().unwrap());
    }
    if let (Some(k), Some(a)) = (v.downcast_ref::<Vec<Fp>>(), agree.downcast_ref::<Vec<Fp>>()) {
        s.ky = k.clone();
        s.actual = a.clone();
    }

    let fp = |v: &mut dyn Any, d: u64| *v.downcast_mut::<Fp>().unwrap() += Fp::from(1 + d);
    match lie {
        Lie::Honest | Lie::Mischallenged { .. } | Lie::Post { .. } => {}
        Lie::Challenge { at, delta } => {
            if challenge == Some(*at) {
                fp(v, *delta);
                s.told = true;
            }
        }
        Lie::Extra { v: e } => {
            if name == "extra" {
                *v.downcast_mut::<Option<Fp>>().unwrap() = Some(Fp::from(*e));
                s.told = true;
            }
        }
        Lie::Value { at, i: k, delta } => {
            if name == at && i == *k {
                fp(v, *delta);
                s.told = true;
            }
        }
        Lie::Claims { at, i: k, delta, collapsed, c } => {
            if name == "ky" && at == "ky" {
                if let Some(ky) = v.downcast_mut::<Vec<Fp>>() {
                    let n = ky.len();
                    ky[*k % n] += Fp::from(1 + *delta);
                    s.told = true;
                }
            } else if name == at && i == *k {
                fp(v, *delta);
                s.told = true;
            } else if (name == "outer_error.collapsed" && *collapsed) || (name == "ab.c" && *c) {
                *v.downcast_mut::<Fp>().unwrap() = *agree.downcast_ref::<Fp>().unwrap();
            }
        }
        Lie::Header { side, el, delta, ky } => {
            if (name == "preamble.header" || (name == "ky.header" && *ky)) && i == *side {
                let h = v.downcast_mut::<Vec<Fp>>().unwrap();
                let m = h.len();
                h[*el % m] += Fp::from(1 + *delta);
                s.told = true;
            }
        }
        Lie::Fact { side, part, delta, ky } => {
            if (name == "preamble" || (name == "ky" && *ky)) && i == *side {
                if let Some(p) = v.downcast_mut::<Pf>() {
                    alter(p, part, 0, *delta);
                    s.told = true;
                }
            }
        }
        Lie::Damaged { side, hashes, at: k, delta } => {
            let part = if *hashes { RX[1] } else { RX[0] };
            if AFTER.contains(&name) && i == *side && v.is::<Pf>() {
                edit(v.downcast_mut::<Pf>().unwrap(), part, &at(*k, *delta), name == "p");
            } else if name == "ky" {
                if let Some(ky) = v.downcast_mut::<Vec<Fp>>() {
                    let (to, from) = (side * 3 + if *hashes { 2 } else { 0 }, side + if *hashes { 4 } else { 2 });
                    s.told = ky[to] != s.actual[from];
                    ky[to] = s.actual[from];
                }
            }
        }
        Lie::Query { side, q, point, delta } => {
            let p = |s: &State| {
                let pts = s.points(*q, *side);
                bump(&pts, *point % pts.len(), Fp::from(1 + *delta))
            };
            if let Some(part) = child_part(*q) {
                if LATE.contains(&name) && i == *side && v.is::<Pf>() {
                    let c = p(s);
                    edit(v.downcast_mut::<Pf>().unwrap(), part, &c, name == "p");
                    s.told = true;
                }
            } else if late_part(*q) == Some(name) && (*q != Q::Wx || i == *side) {
                let c = p(s);
                add(v.downcast_mut::<Poly>().unwrap(), &c);
                s.told = true;
            }
        }
        Lie::Noise { b, at, by, delta } => {
            if name == "ab" {
                let (pa, pb) = v.downcast_mut::<(Poly, Poly)>().unwrap();
                let (p, other) = if *b { (pb, pa) } else { (pa, pb) };
                let n = R::num_coeffs();
                let mut o: Vec<Fp> = other.iter_coeffs().collect();
                o.resize(n, Fp::ZERO);
                let (j, k) = (*at % n, (*at + 1 + *by % (n - 1)) % n);
                let (oj, ok) = (o[n - 1 - j], o[n - 1 - k]);
                let d = Fp::from(1 + *delta);
                let mut c = vec![Fp::ZERO; n];
                if oj.is_zero().into() {
                    c[j] = d;
                } else {
                    c[j] = d * ok;
                    c[k] = -d * oj;
                }
                s.told = true;
                add(p, &c);
            }
        }
        Lie::F { at: k, delta } => {
            if name == "f" {
                if let Some(p) = v.downcast_mut::<Poly>() {
                    add(p, &at(*k, *delta));
                    s.told = true;
                }
            }
        }
        Lie::Point { sum, at } => {
            if (name == "p.sums" && *sum) || (name == "p.points" && !*sum) {
                let p = v.downcast_mut::<Vec<EqAffine>>().unwrap();
                let n = p.len();
                p[*at % n] = (-p[*at % n]).into();
                s.told = true;
            }
        }
        Lie::Endoscalar { delta } => {
            if name == "p.endoscalar" {
                if let Some(e) = v.downcast_mut::<ragu_arithmetic::Uendo>() {
                    let other = ragu_arithmetic::Uendo::from(1 + *delta);
                    s.told = *e != other;
                    *e = other;
                }
            }
        }
        Lie::Look { phase, side, part, at: k, delta } => {
            if name == LOOKS[*phase].0 && i == *side {
                if let Some(p) = v.downcast_mut::<Pf>() {
                    // A changed polynomial keeps its opening, so that only the
                    // stage's view is wrong.
                    match part.ends_with("poly") || part.ends_with(".rx") {
                        true => edit(p, part, &at(*k, *delta), name == "p"),
                        false => alter(p, part, *k, *delta),
                    }
                    s.told = true;
                }
            }
        }
        Lie::Chain { start, side, delta } => chain(s, *start, *side, *delta, name, i, v),
        Lie::Forge { side, el, delta, at: k } => {
            if (name == "preamble.header" || name == "ky.header") && i == *side {
                let h = v.downcast_mut::<Vec<Fp>>().unwrap();
                let m = h.len();
                h[*el % m] += Fp::from(1 + *delta);
            }
            forge(s, *side, *k, name, i, v);
        }
        Lie::ForgeIndex { side, index, at: k } => {
            if i == *side {
                if let Some(p) = v.downcast_mut::<Pf>() {
                    p.sim_parts(&mut |n, part| {
                        if n == "application.circuit_id" {
                            if let Part::Circuit(c) = part {
                                *c = CircuitIndex::from_u32(*index);
                            }
                        }
                    });
                }
            }
            forge(s, *side, *k, name, i, v);
        }
    }
    if challenge.is_some() {
        s.used.push(*v.downcast_ref::<Fp>().unwrap());
        if s.stop && name == "pre_beta" {
            panic!("enough");
        }
    }
}

/// Adds the adapted amount to one coefficient of a child's application trace.
fn forge(s: &mut State, side: usize, k: usize, name: &str, i: usize, v: &mut dyn Any) {
    if AFTER.contains(&name) && i == side {
        if let Some(p) = v.downcast_mut::<Pf>() {
            let mut c = at(k, 0);
            *c.last_mut().unwrap() = s.adapt;
            edit(p, RX[0], &c, name == "p");
        }
    }
    s.told = true;
}

/// A false wiring polynomial, starting at the child's (0), `wx` (1), `wy` (2)
/// or `xy` (3), with each later one patched to agree.
fn chain(s: &mut State, start: usize, side: usize, delta: u64, name: &str, i: usize, v: &mut dyn Any) {
    let d = Fp::from(1 + delta);
    let f = s.facts;
    match name {
        "query" | "f" | "eval" | "p" if start == 0 && i == side => {
            if let Some(p) = v.downcast_mut::<Pf>() {
                edit(p, "query.registry_xy_poly", &[d], name == "p");
                s.told = true;
            }
        }
        "s_prime.registry_wx" if start <= 1 && i == side => {
            // Agrees with the child (0), or is false only later (1).
            let c = if start == 0 { vec![d] } else { vec![-f[side][1] * d, d] };
            add(v.downcast_mut::<Poly>().unwrap(), &c);
            s.told = true;
        }
        "inner_error.registry_wy" if start <= 2 => {
            let y = s.used("y");
            let pts = [f[0][2], f[1][2]];
            let c = match start {
                0 => bump(&pts, side, d),
                1 => bump(&pts, side, (y - f[side][1]) * d),
                _ => vec![pts[0] * pts[1] * d, -(pts[0] + pts[1]) * d, d],
            };
            let p = v.downcast_mut::<Poly>().unwrap();
            add(p, &c);
            s.gap = c;
            s.told = true;
        }
        "query.registry_xy" => {
            // What `xy` must make up for at `w`.
            let x = s.used("x");
            let gap = match start {
                0..=2 => s.gap.iter().rev().fold(Fp::ZERO, |a, c| a * x + *c),
                _ => d,
            };
            let pts = s.points(Q::Xy, side);
            add(v.downcast_mut::<Poly>().unwrap(), &bump(&pts, 0, gap));
            s.told = true;
        }
        _ => {}
    }
}

// --- running ---------------------------------------------------------------

struct Ran {
    item: Result<Result<Item, String>, String>,
    st: State,
}

fn fuse_lying(app: &App, c: &Case, l: &Item, r: &Item, lie: &Lie, adapt: Fp, stop: bool) -> Ran {
    let st = Rc::new(RefCell::new(State { adapt, stop, ..State::default() }));
    let (s, lie) = (st.clone(), lie.clone());
    sim_liar(Some(Box::new(move |name, i, v, agree| speak(&mut s.borrow_mut(), &lie, name, i, v, agree))));
    let item = guard(|| {
        if c.step as usize >= STEPS {
            rerandomize(app, &mut rng(c.g), l).map_err(|e| e.to_string())
        } else {
            apply(app, &mut rng(c.g), c.step, plain(c.w), Some(l), Some(r)).map(|x| x.0).map_err(|e| e.to_string())
        }
    });
    drop(sim_liar(None));
    let st = Rc::try_unwrap(st).ok().expect("the liar is gone").into_inner();
    Ran { item, st }
}

/// The first challenge that must feel the lie.
fn felt(lie: &Lie) -> Option<usize> {
    let stage = |name: &str| match name.split('.').next().unwrap() {
        "s_prime" => 1,
        "inner_error" => 3,
        "outer_error" | "ky" => 5,
        "query" => 8,
        "eval" => 10,
        _ => 11,
    };
    Some(match lie {
        Lie::Header { .. } | Lie::Fact { .. } => 0,
        Lie::Value { at, .. } | Lie::Claims { at, .. } => stage(at),
        Lie::Chain { start: 0 | 1, .. } => 1,
        Lie::Chain { start: 2, .. } => 3,
        Lie::Chain { .. } => 8,
        Lie::Noise { .. } => 7,
        Lie::F { .. } => 9,
        Lie::Extra { .. } => 3,
        _ => return None,
    })
    .filter(|k| *k < 11)
}

fn kind(lie: &Lie) -> String {
    match lie {
        Lie::Challenge { at, .. } => format!("challenge.{}", CHALLENGES[*at]),
        Lie::Value { at, .. } => format!("value.{at}"),
        Lie::Claims { at, collapsed, c, .. } => format!("claims.{at}{}{}", if *collapsed { "+collapsed" } else { "" }, if *c { "+c" } else { "" }),
        Lie::Header { ky, .. } => format!("header{}", if *ky { "+ky" } else { "" }),
        Lie::Fact { part, ky, .. } => format!("fact.{part}{}", if *ky { "+ky" } else { "" }),
        Lie::Damaged { hashes, .. } => format!("damaged.{}", if *hashes { "hashes_1" } else { "application" }),
        Lie::Query { q, point, .. } => format!("query.{q:?}@{point}"),
        Lie::Noise { b, .. } => format!("noise.{}", if *b { "b" } else { "a" }),
        Lie::Point { sum, .. } => format!("point.{}", if *sum { "sum" } else { "input" }),
        Lie::Look { phase, part, .. } => format!("look.{}.{part}", LOOKS[*phase].0),
        Lie::Chain { start, .. } => format!("chain.{start}"),
        Lie::Post { v, .. } => format!("post{}", if *v { "+v" } else { "" }),
        l => serde_json::to_value(l)
            .ok()
            .and_then(|v| v.as_object().and_then(|o| o.keys().next().cloned()).or(v.as_str().map(str::to_string)))
            .unwrap_or_default()
            .to_lowercase(),
    }
}

struct Told {
    item: Result<Result<Item, String>, String>,
    told: bool,
    raw: Vec<Fp>,
    base: Vec<Fp>,
}

fn tell(app: &App, c: &Case) -> Told {
    let items = &pool().items;
    let (l, r) = (&items[c.l], &items[c.r]);
    if c.step as usize >= STEPS {
        // The first rerandomization makes the item all later ones fold in.
        let _ = guard(|| rerandomize(app, &mut rng(c.g ^ 0x99), &items[ONE_A]).map(|_| ()));
    }
    let base = || fuse_lying(app, c, l, r, &Lie::Honest, Fp::ZERO, true).st.raw;
    match &c.lie {
        Lie::Mischallenged { side, delta } => {
            // The child: MERGED made again, with a `w` of its own choosing.
            let again = Case { step: 1, w: 7, g: c.g ^ 0x77, ..c.clone() };
            let lie = Lie::Challenge { at: 0, delta: *delta };
            let ran = fuse_lying(app, &again, &items[ONE_A], &items[ONE_B], &lie, Fp::ZERO, false);
            let Ok(Ok(child)) = ran.item else {
                return Told { item: ran.item, told: false, raw: vec![], base: vec![] };
            };
            let (side, honest) = (*side, ran.st.raw[0]);
            let (l, r) = if side == 0 { (&child, r) } else { (l, &child) };
            let told = Rc::new(RefCell::new(false));
            let t = told.clone();
            sim_liar(Some(Box::new(move |name, i, v, agree| {
                if (name == "preamble" || name == "ky") && i == side {
                    if let Some(p) = v.downcast_mut::<Pf>() {
                        p.sim_parts(&mut |n, part| {
                            if n == "challenges.w" {
                                if let Part::Scalar(s) = part {
                                    *s = honest;
                                }
                            }
                        });
                        return;
                    }
                }
                if name == "ky" {
                    if let (Some(k), Some(a)) = (v.downcast_mut::<Vec<Fp>>(), agree.downcast_ref::<Vec<Fp>>()) {
                        *t.borrow_mut() = k[side * 3 + 1] != a[6 + side];
                        k[side * 3 + 1] = a[6 + side];
                    }
                }
            })));
            let item = guard(|| {
                apply(app, &mut rng(c.g), c.step, plain(c.w), Some(l), Some(r)).map(|x| x.0).map_err(|e| e.to_string())
            });
            drop(sim_liar(None));
            let told = *told.borrow();
            Told { item, told, raw: vec![], base: vec![] }
        }
        Lie::Forge { side, .. } | Lie::ForgeIndex { side, .. } => {
            // How far off the claim is, and how much one coefficient moves it.
            let a = fuse_lying(app, c, l, r, &c.lie, Fp::ZERO, true).st;
            let b = fuse_lying(app, c, l, r, &c.lie, Fp::ONE, true).st;
            if a.actual.len() < 4 || b.actual.len() < 4 {
                return Told { item: Err("no claims".into()), told: false, raw: vec![], base: vec![] };
            }
            let (k, v0, v1) = (a.ky[side * 3], a.actual[2 + side], b.actual[2 + side]);
            let Some(slope) = Option::<Fp>::from((v1 - v0).invert()) else {
                return Told { item: Err("flat".into()), told: false, raw: vec![], base: vec![] };
            };
            let ran = fuse_lying(app, c, l, r, &c.lie, (k - v0) * slope, false);
            let fits = ran.st.actual.get(2 + side) == Some(&ran.st.ky[side * 3]);
            Told { item: ran.item, told: fits && k != v0, raw: vec![], base: vec![] }
        }
        Lie::Post { at: k, delta, v } => {
            let ran = fuse_lying(app, c, l, r, &Lie::Honest, Fp::ZERO, false);
            let item = ran.item.map(|i| {
                i.map(|mut i| {
                    let d = at(*k, *delta);
                    edit(&mut i.proof, "p.poly", &d, true);
                    if *v {
                        let u = scalar(&i.proof, "challenges.u");
                        let dv = d.iter().rev().fold(Fp::ZERO, |s, x| s * u + *x);
                        i.proof.sim_parts(&mut |n, part| {
                            if n == "p.v" {
                                if let Part::Scalar(s) = part {
                                    *s += dv;
                                }
                            }
                        });
                    }
                    i
                })
            });
            Told { item, told: true, raw: vec![], base: vec![] }
        }
        lie => {
            let ran = fuse_lying(app, c, l, r, lie, Fp::ZERO, c.depend);
            let base = if c.depend { base() } else { vec![] };
            Told { item: ran.item, told: ran.st.told, raw: ran.st.raw, base }
        }
    }
}

/// Pairs of items every step accepts, with at least one that states something.
pub fn pairs(step: u8) -> (Vec<usize>, Vec<usize>) {
    const KINDS: [u8; POOL] = [1, 1, 0, 1, 2, 1, 3, 4];
    let (l, r) = match step as usize {
        s if s < STEPS => (SIG[s].0, SIG[s].1),
        _ => (9, 0),
    };
    let of = |k: u8| (0..POOL).filter(|i| KINDS[*i] == k || (k == 9 && KINDS[*i] != 0)).collect();
    (of(l), of(r))
}

/// Every kind of lie, and whether it is checked by its challenges. The first
/// part, where each lie breaks exactly one equation, always runs.
pub fn catalogue() -> (Vec<(Lie, bool)>, Vec<(Lie, bool)>) {
    let mut v: Vec<(Lie, bool)> = vec![(Lie::Honest, false)];
    let mut w: Vec<(Lie, bool)> = vec![];
    let mut push = |l: Lie| v.push((l, false));
    let mut also = |l: Lie| w.push((l, false));
    for at in 0..11 {
        push(Lie::Challenge { at, delta: 0 });
    }
    push(Lie::Extra { v: 5 });
    for (at, i, collapsed, c) in [
        ("inner_error.error_term", 0, false, false),
        ("inner_error.error_term", 1003, true, false),
        ("inner_error.error_term", 2001, false, true),
        ("outer_error.error_term", 0, false, false),
        ("outer_error.error_term", 3, false, true),
        ("outer_error.collapsed", 0, false, false),
        ("outer_error.collapsed", 1, false, true),
        ("ky", 0, false, false),
        ("ky", 1, true, false),
        ("ky", 2, false, true),
        ("ky", 3, true, false),
        ("ky", 4, false, false),
        ("ky", 5, true, true),
        ("ab.c", 0, false, false),
        ("outer_error.sponge_state", 0, false, false),
    ] {
        push(Lie::Claims { at: at.into(), i, delta: 0, collapsed, c });
    }
    for side in 0..2 {
        for el in [0, 3] {
            also(Lie::Header { side, el, delta: 0, ky: false });
            also(Lie::Header { side, el, delta: 0, ky: true });
        }
        for hashes in [false, true] {
            // Outside what the circuit's stages own, so that only its own
            // claim breaks.
            push(Lie::Damaged { side, hashes, at: if hashes { 1500 } else { 100 }, delta: 0 });
        }
        push(Lie::Mischallenged { side, delta: 0 });
        push(Lie::Forge { side, el: 0, delta: 0, at: 9 });
        push(Lie::Forge { side, el: 3, delta: 4, at: 9 });
        push(Lie::ForgeIndex { side, index: 40, at: 9 });
        for (k, part) in FACTS.iter().filter(|p| !p.is_empty()).enumerate() {
            if k % 2 == side {
                push(Lie::Fact { side, part: part.to_string(), delta: 0, ky: false });
            }
            also(Lie::Fact { side, part: part.to_string(), delta: 0, ky: side == 0 });
        }
        for q in [Q::ChildP, Q::ChildXy, Q::ChildA, Q::ChildB] {
            push(Lie::Query { side, q, point: 0, delta: 0 });
        }
        for k in 0..11 {
            push(Lie::Query { side, q: Q::ChildRx(k), point: 0, delta: 0 });
        }
        for point in 0..2 {
            push(Lie::Query { side, q: Q::Wx, point, delta: 0 });
        }
        push(Lie::Chain { start: 0, side, delta: 0 });
        push(Lie::Chain { start: 1, side, delta: 0 });
    }
    for point in 0..3 {
        push(Lie::Query { side: 0, q: Q::Wy, point, delta: 0 });
    }
    for point in 0..16 {
        push(Lie::Query { side: 0, q: Q::Xy, point, delta: 0 });
    }
    for q in [Q::A, Q::B] {
        push(Lie::Query { side: 0, q, point: 0, delta: 0 });
    }
    for b in [false, true] {
        push(Lie::Noise { b, at: 77, by: 300, delta: 0 });
        push(Lie::Post { at: 3, delta: 0, v: b });
    }
    push(Lie::F { at: 5, delta: 0 });
    for at in [0, 1, 7, 36] {
        push(Lie::Point { sum: false, at });
    }
    for at in [0, 4] {
        push(Lie::Point { sum: true, at });
    }
    push(Lie::Endoscalar { delta: 9 });
    push(Lie::Chain { start: 2, side: 0, delta: 0 });
    push(Lie::Chain { start: 3, side: 0, delta: 0 });
    for (phase, (_, parts)) in LOOKS.iter().enumerate() {
        for (k, part) in parts.iter().enumerate() {
            also(Lie::Look { phase, side: k % 2, part: part.to_string(), at: 50, delta: 0 });
        }
        if phase > 0 {
            let k = phase % 11;
            also(Lie::Look { phase, side: phase % 2, part: RX[k].into(), at: 50, delta: 0 });
        }
    }
    // What a stage commits to decides what comes after it.
    let mut push = |l: Lie| v.push((l, true));
    let mut also = |l: Lie| w.push((l, true));
    for side in 0..2 {
        for part in BRIDGED {
            push(Lie::Fact { side, part: part.to_string(), delta: 0, ky: false });
        }
        push(Lie::Fact { side, part: "p.v".into(), delta: 0, ky: false });
        for part in FACTS.iter().filter(|p| !p.is_empty()) {
            also(Lie::Fact { side, part: part.to_string(), delta: 0, ky: false });
        }
    }
    push(Lie::Header { side: 0, el: 0, delta: 0, ky: false });
    push(Lie::Header { side: 1, el: 0, delta: 0, ky: false });
    push(Lie::Chain { start: 1, side: 0, delta: 0 });
    push(Lie::Chain { start: 1, side: 1, delta: 0 });
    push(Lie::Chain { start: 2, side: 0, delta: 0 });
    push(Lie::Chain { start: 3, side: 0, delta: 0 });
    push(Lie::Claims { at: "inner_error.error_term".into(), i: 1, delta: 0, collapsed: false, c: false });
    push(Lie::Claims { at: "outer_error.error_term".into(), i: 1, delta: 0, collapsed: false, c: false });
    push(Lie::Claims { at: "outer_error.sponge_state".into(), i: 1, delta: 0, collapsed: false, c: false });
    push(Lie::Claims { at: "ky".into(), i: 1, delta: 0, collapsed: true, c: false });
    push(Lie::Value { at: "query.rx".into(), i: 3, delta: 0 });
    push(Lie::Value { at: "eval.rx".into(), i: 1004, delta: 0 });
    push(Lie::Noise { b: false, at: 70, by: 9, delta: 0 });
    push(Lie::Noise { b: true, at: 70, by: 9, delta: 0 });
    push(Lie::F { at: 8, delta: 0 });
    (v, w)
}

fn draw_lie(r: &mut Rng) -> (Lie, bool) {
    let (core, rest) = catalogue();
    let (mut lie, mut depend) = if r.chance(1, 2) { r.pick(&core[1..]).clone() } else { r.pick(&rest).clone() };
    let d = if r.chance(1, 2) { 0 } else { r.below(1 << 40) };
    let n = if r.chance(1, 3) { r.below(64) } else { r.below(1 << 15) } as usize;
    match &mut lie {
        Lie::Challenge { delta, .. } | Lie::Mischallenged { delta, .. } | Lie::Chain { delta, .. } | Lie::Endoscalar { delta } => *delta = d,
        Lie::Extra { v } => *v = 1 + d,
        Lie::Value { .. } => {}
        Lie::Claims { at, i, delta, .. } => {
            *delta = d;
            match at.as_str() {
                "inner_error.error_term" => *i = 1000 * r.below(5) as usize + r.below(20) as usize,
                "outer_error.error_term" => *i = r.below(20) as usize,
                "outer_error.collapsed" => *i = r.below(5) as usize,
                "ky" => *i = r.below(6) as usize,
                "outer_error.sponge_state" => *i = r.below(5) as usize,
                _ => {}
            }
        }
        Lie::Header { side, el, delta, ky } => {
            (*side, *el, *delta, *ky) = (r.below(2) as usize, r.below(4) as usize, d, r.chance(1, 2))
        }
        Lie::Fact { delta, ky, .. } => {
            *delta = d;
            if !depend {
                *ky = r.chance(1, 2);
            }
        }
        Lie::Damaged { at, delta, .. } => (*at, *delta) = (n, d),
        Lie::Query { delta, .. } => *delta = d,
        Lie::Noise { at, by, delta, .. } => (*at, *by, *delta) = (n, r.below(1 << 15) as usize, d),
        Lie::F { at, delta } => (*at, *delta) = (n, d),
        Lie::Point { at, .. } => *at = r.below(37) as usize,
        Lie::Look { side, part, at, delta, phase } => {
            (*side, *at, *delta) = (r.below(2) as usize, n, d);
            if part.ends_with(".rx") && *phase > 0 {
                *part = r.pick(&RX).to_string();
            }
        }
        Lie::Post { at, delta, .. } => (*at, *delta) = (n, d),
        Lie::Forge { delta, at, .. } => (*delta, *at) = (d, n % 4096),
        Lie::ForgeIndex { index, at, .. } => (*index, *at) = (32 + r.below(1 << 20) as u32, n % 4096),
        Lie::Honest => {}
    }
    if r.chance(1, 3) && !depend {
        // One number of the query or evaluation stage.
        let names: &[(&str, usize, usize)] = &[
            ("query.rx", 1000, 11),
            ("query.fixed_registry", 0, 13),
            ("query.registry_wxy", 0, 1),
            ("query.a", 1, 1),
            ("query.b", 1, 1),
            ("query.child_registry_xy", 1, 1),
            ("query.registry_xy_at_circuit_id", 1, 1),
            ("query.registry_wy_at_child_x", 1, 1),
            ("eval.rx", 1000, 11),
            ("eval.child_a", 1, 1),
            ("eval.child_b", 1, 1),
            ("eval.child_registry_xy", 1, 1),
            ("eval.child_p", 1, 1),
            ("eval.registry_wx", 0, 2),
            ("eval.registry_wy", 0, 1),
            ("eval.a", 0, 1),
            ("eval.b", 0, 1),
            ("eval.registry_xy", 0, 1),
        ];
        let (at, side, n) = *r.pick(names);
        let i = side * r.below(2) as usize + r.below(n as u64) as usize;
        lie = Lie::Value { at: at.into(), i, delta: d };
        depend = r.chance(1, 3);
    }
    (lie, depend)
}

fn make_case(r: &mut Rng, lie: Lie, depend: bool) -> Case {
    let mut sim = SimCase::draw(r);
    sim.field_gap = 0;
    // Steps whose children are not both unit headers, and rerandomization.
    let steps: &[u8] = match &lie {
        Lie::Mischallenged { side: 0, .. } => &[1, 2],
        Lie::Mischallenged { .. } => &[1, 3, 6],
        _ => &[1, 1, 2, 3, 4, 6, 7, 8],
    };
    let step = *r.pick(steps);
    let (ls, rs) = pairs(step);
    let (l, right) = (*r.pick(&ls), *r.pick(&rs));
    let chained = !depend && !matches!(lie, Lie::Point { .. }) && r.chance(1, 8);
    let then = if chained {
        vec![match r.below(3) {
            0 => Use::Left { w: r.below(100), other: r.below(16) as usize },
            1 => Use::Right { w: r.below(100), other: r.below(16) as usize },
            _ => Use::Rerandomize,
        }]
    } else {
        vec![]
    };
    Case { sim, step, l, r: right, w: r.below(1000), g: r.next(), lie, depend, then }
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "a run lets one participant tell one stage of a fuse something false and keep everything after it consistent with the lie, then verifies the result (and sometimes uses it honestly), or compares the challenges with an honest run's; non-trivial when the lie was told; distinct by (lie, step, children)"
    }
    fn prepare(&self) {
        prepare_pool();
    }
    fn warm(&self) {
        let _ = guard(pool);
    }
    fn fixed(&self) -> Vec<Value> {
        catalogue()
            .0
            .into_iter()
            .enumerate()
            .map(|(k, (lie, depend))| {
                let mut r = Rng::new(hash2(0xc11, k as u64));
                serde_json::to_value(make_case(&mut r, lie, depend)).unwrap()
            })
            .collect()
    }
    fn generate(&self, seed: u64, _tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let (lie, depend) = draw_lie(&mut r);
        serde_json::to_value(make_case(&mut r, lie, depend)).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let _ = pool();
        let mut o = Outcome::default();
        let app = build_app();
        let sh = Shared(&app);
        let c = &case;
        let (r, rep) = case.sim.run1(move || {
            let app = sh.get();
            let t = tell(app, c);
            let mut log = Vec::new();
            let mut digests = Vec::new();
            if let (Ok(Ok(i)), false) = (&t.item, c.depend) {
                let mut cur = i.clone();
                log.push(guard(|| verify(app, rng(c.g ^ 0x55), &cur).map_err(|e| e.to_string())));
                digests.push(simrt::quiet(|| digest(&cur)));
                for (k, u) in c.then.iter().enumerate() {
                    match guard(|| use_item(app, c.g.wrapping_add(k as u64 + 1), &cur, u).map_err(|e| e.to_string())) {
                        Ok(Ok(x)) => {
                            log.push(guard(|| verify(app, rng(c.g ^ 0x56), &x).map_err(|e| e.to_string())));
                            digests.push(simrt::quiet(|| digest(&x)));
                            cur = x;
                        }
                        Ok(Err(e)) => log.push(Ok(Err(e))),
                        Err(e) => log.push(Err(e)),
                    }
                }
            }
            let made = match &t.item {
                Ok(Ok(_)) => Ok(Ok(())),
                Ok(Err(e)) => Ok(Err(e.clone())),
                Err(e) => Err(e.clone()),
            };
            (made, t.told, t.raw, t.base, log, digests)
        });
        o.absorb_report(&rep);
        o.decisions = rep.decisions.clone();
        let (made, told, raw, base, log, digests) = match r {
            Ok(x) => x,
            Err(e) => {
                o.fail("panic", e);
                return o;
            }
        };
        for d in &digests {
            o.mix(*d);
        }
        o.mix(hash_str(&format!("{made:?}{log:?}{raw:?}")));
        let what = kind(&case.lie);
        o.distinct.push(hash_str(&serde_json::to_string(&(&case.lie, case.step, case.l, case.r, case.depend, &case.then)).unwrap()));
        if case.lie == Lie::Honest {
            if log.first() != Some(&Ok(Ok(true))) {
                o.fail("honest-rejected", format!("an honest fuse: {made:?}, {log:?}"));
            }
            return o;
        }
        if !told {
            o.count(&format!("lie_not_told.{what}"), 1);
            return o;
        }
        o.nontrivial = true;
        o.count(&format!("lie.{}", what.split('.').next().unwrap()), 1);
        if case.depend {
            let Some(from) = felt(&case.lie) else { return o };
            if raw.len() < 11 || base.len() < 11 {
                o.count("lie_stopped_the_prover", 1);
                return o;
            }
            o.count("challenges_compared", (11 - from) as u64);
            for k in from..11 {
                if raw[k] == base[k] {
                    o.fail(
                        format!("unheard:{what}:{}", CHALLENGES[k]),
                        format!("the prover told another story ({:?}) and challenge {} stayed the same", case.lie, CHALLENGES[k]),
                    );
                    break;
                }
            }
            return o;
        }
        if !matches!(made, Ok(Ok(()))) {
            o.count(&format!("lie_stopped_the_prover.{what}"), 1);
        }
        for (k, v) in log.iter().enumerate() {
            o.count("verdicts", 1);
            match v {
                Ok(Ok(true)) => {
                    o.fail(
                        format!("believed:{what}"),
                        format!("verify accepted {} after {:?} in step {}", if k == 0 { "the item" } else { "an item built on the item" }, case.lie, case.step),
                    );
                    break;
                }
                Err(e) => o.fail(format!("panic:{what}"), format!("{:?}: {e}", case.lie)),
                _ => {}
            }
        }
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = Vec::new();
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        if !c.then.is_empty() {
            let mut d = c.clone();
            d.then.clear();
            v.push(serde_json::to_value(d).unwrap());
        }
        v.extend(shrink_sim(case));
        v
    }
    fn budget(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 110 } else { 1500 }
    }
    fn components(&self) -> Value {
        pcd_components()
    }
}
