//! Every view of a registry is the same polynomial, on every node.

use super::c01::{field, fe_bytes};
use crate::engine::*;
use crate::raw::{INJECTED, RNode, ROp, RShape, Raw, Script, gen_raw};
use ff::{Field, PrimeField};
use ragu_arithmetic::Coeff;
use ragu_circuits::{
    Circuit, WithAux,
    polynomials::{Rank, TestRank, sparse},
    registry::{CircuitIndex, Registry, RegistryBuilder},
    staging::{Stage, StageExt},
};
use ragu_core::{
    Error, Result,
    drivers::{Driver, DriverValue, LinearExpression},
    gadgets::{Bound, Kind},
    maybe::Maybe,
};
use ragu_primitives::Element;
use ragu_pasta::Fp;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::Rng;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

type R = TestRank;

/// One registered thing.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Entry {
    /// 0 internal circuit, 2 internal step, 3 application step.
    Circuit(u8, u16),
    /// A stage mask (bonding): which stage, and whether its final mask.
    Mask(u8, bool),
}

impl Entry {
    fn category(&self) -> u8 {
        match self {
            Entry::Circuit(c, _) => *c,
            Entry::Mask(..) => 1,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Point {
    Zero,
    One,
    MinusOne,
    Rand(u64),
    /// The point of circuit index `i`, registered or not.
    Omega(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    Xy(Point, Point),
    Wx(Point, Point),
    Wy(Point, Point),
    Wxy(Point, Point, Point),
    /// `at(w)` kept and asked several times.
    At(Point, Vec<(u8, Point, Point)>),
    CircuitY(u32, Point),
    CircuitXy(u32, Point, Point),
    Shape,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub programs: Vec<RNode>,
    /// In the order in which they end up, per category.
    pub entries: Vec<Entry>,
    /// Each node interleaves the categories in its own way.
    pub nodes: Vec<u64>,
    /// Synthesis steps before a panic, per node; 0 for none.
    pub fuses: Vec<u64>,
    /// (reader thread, node it asks, question, synthesis steps before a panic)
    pub asks: Vec<(u8, u8, Ask, u64)>,
    /// Another registration that differs: what is done to the entries.
    pub edits: Vec<(u8, u16, u16)>,
    /// Registrations made to agree with another wherever one variable has the
    /// value its digest starts from.
    #[serde(default)]
    pub forged: Vec<(u8, u64)>,
}

pub struct C15;

macro_rules! stage {
    ($n:ident, $parent:ty, $v:literal) => {
        #[derive(Default)]
        struct $n;
        impl Stage<Fp, R> for $n {
            type Parent = $parent;
            type Witness<'s> = ();
            type OutputKind = ();
            fn values() -> usize {
                $v
            }
            fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
                &self,
                _: &mut D,
                _: DriverValue<D, ()>,
            ) -> Result<Bound<'dr, D, ()>>
            where
                Self: 'dr,
            {
                Ok(())
            }
        }
    };
}
stage!(StA, (), 3);
stage!(StB, StA, 8);
stage!(StC, StB, 0);
stage!(StD, (), 61);

fn mask(k: u8, fin: bool) -> Result<ragu_circuits::BondingObject<'static, Fp, R>> {
    macro_rules! m {
        ($t:ty) => {
            if fin { <$t as StageExt<Fp, R>>::final_mask() } else { <$t as StageExt<Fp, R>>::mask() }
        };
    }
    match k % 4 {
        0 => m!(StA),
        1 => m!(StB),
        2 => m!(StC),
        _ => m!(StD),
    }
}

/// Registers the entries; `order` interleaves the categories.
fn register<'a>(entries: &[Entry], nodes: &[Arc<RNode>], sc: &Arc<Script>, order: u64) -> Result<Registry<'a, Fp, R>> {
    let mut q: [std::collections::VecDeque<&Entry>; 4] = Default::default();
    for e in entries {
        q[e.category() as usize].push_back(e);
    }
    let mut b = RegistryBuilder::<Fp, R>::new();
    let mut rng = Rng::new(order);
    let left = |q: &[std::collections::VecDeque<&Entry>; 4]| q.iter().map(|x| x.len()).sum::<usize>();
    while left(&q) > 0 {
        let c = if order == 0 { (0..4).find(|c| !q[*c].is_empty()).unwrap() } else { rng.below(4) as usize };
        let Some(e) = q[c].pop_front() else { continue };
        b = match e {
            Entry::Mask(k, f) => b.register_bonding(mask(*k, *f)?),
            Entry::Circuit(cat, n) => {
                let raw = Raw { node: nodes[*n as usize % nodes.len()].clone(), sc: sc.clone() };
                match cat {
                    0 => b.register_internal_circuit(raw)?,
                    2 => b.register_internal_step(raw)?,
                    _ => b.register_circuit(raw)?,
                }
            }
        };
    }
    b.finalize()
}

/// A circuit that is nothing but its coefficients.
#[derive(Clone)]
struct Coeffs([Fp; 4]);

impl Circuit<Fp> for Coeffs {
    type Instance<'s> = Fp;
    type Witness<'s> = ();
    type Output = Kind![Fp; Element<'_, _>];
    type Aux<'s> = ();

    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        v: DriverValue<D, Fp>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, v)
    }

    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        _: DriverValue<D, ()>,
    ) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> {
        let zero = || Ok((Coeff::Zero, Coeff::Zero, Coeff::Zero));
        let (a, b, _) = dr.mul(zero)?;
        for c in self.0.chunks(2) {
            dr.enforce_zero(|lc| lc.add_term(&a, Coeff::Arbitrary(c[0])).add_term(&b, Coeff::Arbitrary(c[1])))?;
        }
        Ok(WithAux::new(Element::promote(a, D::just(|| Fp::ZERO)), D::unit()))
    }
}

/// Two different registrations, alike wherever one variable has a given value,
/// must not share a digest.
fn forged(nodes: &[Arc<RNode>], kind: u8, seed: u64) -> Result<Option<bool>> {
    let quiet = Arc::new(Script::default());
    let mut rng = Rng::new(seed);
    let mut c = [[Fp::ZERO; 4]; 2];
    for v in c.iter_mut().flatten() {
        *v = field(&mut rng);
    }
    let more = rng.below(1 + nodes.len() as u64) as usize;
    let build = |c: &[[Fp; 4]; 2]| -> Result<Registry<'static, Fp, R>> {
        let mut b = RegistryBuilder::<Fp, R>::new();
        for k in c {
            b = b.register_internal_circuit(Coeffs(*k))?;
        }
        for n in &nodes[..more] {
            b = b.register_circuit(Raw { node: n.clone(), sc: quiet.clone() })?;
        }
        b.finalize()
    };
    let (mut w, mut x, mut y) = (field(&mut rng), field(&mut rng), field(&mut rng));
    // Which two coefficients make up for one another.
    let (i, j) = match kind % 3 {
        0 => {
            w = Fp::from(2);
            ((0, 0), (1, 0))
        }
        1 => {
            x = Fp::from(3);
            ((0, 0), (0, 1))
        }
        _ => {
            y = Fp::from(5);
            ((0, 0), (0, 2))
        }
    };
    let at = |r: &Registry<'_, Fp, R>| r.wxy(w, x, y) - key_term(r.digest(), x, y);
    let base = build(&c)?;
    let slope = |p: (usize, usize)| -> Result<Fp> {
        let mut d = c;
        d[p.0][p.1] += Fp::ONE;
        Ok(at(&build(&d)?) - at(&base))
    };
    let (p, q) = (slope(i)?, slope(j)?);
    let Some(q) = Option::<Fp>::from(q.invert()) else { return Ok(None) };
    let by = field(&mut rng);
    let mut d = c;
    d[i.0][i.1] += by;
    d[j.0][j.1] -= by * p * q;
    let other = build(&d)?;
    if at(&other) != at(&base) {
        return Ok(None);
    }
    Ok(Some(other.digest() == base.digest()))
}

fn point(p: &Point) -> Fp {
    match p {
        Point::Zero => Fp::ZERO,
        Point::One => Fp::ONE,
        Point::MinusOne => -Fp::ONE,
        Point::Rand(s) => field(&mut Rng::new(*s)),
        Point::Omega(i) => CircuitIndex::from_u32(*i).omega_j(),
    }
}

/// What a question is answered with.
#[derive(Clone, PartialEq)]
enum Answer {
    Poly(Vec<Fp>),
    Value(Fp),
    Many(Vec<Answer>),
    Shape(Vec<(usize, usize)>, Vec<bool>),
}

impl Answer {
    fn hash(&self, h: u64) -> u64 {
        match self {
            Answer::Poly(p) => p.iter().fold(h, |h, c| hash_bytes(h, &fe_bytes(c))),
            Answer::Value(v) => hash_bytes(h, &fe_bytes(v)),
            Answer::Many(v) => v.iter().fold(h, |h, a| a.hash(h)),
            Answer::Shape(a, b) => hash2(h, hash_str(&format!("{a:?}{b:?}"))),
        }
    }
}

fn coeffs(p: &sparse::Polynomial<Fp, R>) -> Vec<Fp> {
    p.iter_coeffs().collect()
}

fn ask(reg: &Registry<'_, Fp, R>, q: &Ask) -> Answer {
    let n = reg.num_circuits() as u32;
    match q {
        Ask::Xy(x, y) => Answer::Poly(coeffs(&reg.xy(point(x), point(y)))),
        Ask::Wx(w, x) => Answer::Poly(coeffs(&reg.wx(point(w), point(x)))),
        Ask::Wy(w, y) => Answer::Poly(coeffs(&reg.wy(point(w), point(y)))),
        Ask::Wxy(w, x, y) => Answer::Value(reg.wxy(point(w), point(x), point(y))),
        Ask::At(w, qs) => {
            let at = reg.at(point(w));
            Answer::Many(
                qs.iter()
                    .map(|(k, x, y)| match k {
                        0 => Answer::Poly(coeffs(&at.x(point(x)))),
                        1 => Answer::Poly(coeffs(&at.y(point(y)))),
                        _ => Answer::Value(at.xy(point(x), point(y))),
                    })
                    .collect(),
            )
        }
        Ask::CircuitY(i, y) => Answer::Poly(coeffs(&reg.circuit_y(CircuitIndex::from_u32(i % n), point(y)))),
        Ask::CircuitXy(i, x, y) => Answer::Value(reg.circuit_xy(CircuitIndex::from_u32(i % n), point(x), point(y))),
        Ask::Shape => Answer::Shape(
            (0..n).map(|i| reg.constraint_counts(CircuitIndex::from_u32(i))).collect(),
            (0..2 * n + 3).map(|i| reg.circuit_in_domain(CircuitIndex::from_u32(i))).collect(),
        ),
    }
}

/// The reference: each entry registered alone, its own key taken out.
struct Model {
    solo: Vec<Registry<'static, Fp, R>>,
    key: Fp,
    counts: Vec<(usize, usize)>,
}

fn key_term(key: Fp, x: Fp, y: Fp) -> Fp {
    key * (x * y).pow_vartime([(4 * R::n() - 1) as u64])
}

fn horner(p: &[Fp], x: Fp) -> Fp {
    p.iter().rev().fold(Fp::ZERO, |a, c| a * x + c)
}

impl Model {
    fn s(&self, i: usize, x: Fp, y: Fp) -> Fp {
        let r = &self.solo[i];
        // The solo domain has one point.
        r.circuit_xy(CircuitIndex::from_u32(0), x, y) - key_term(r.digest(), x, y)
    }
    fn weights(&self, w: Fp) -> Vec<Fp> {
        let n = self.solo.len().next_power_of_two();
        let pts: Vec<Fp> = (0..n as u32).map(|i| CircuitIndex::from_u32(i).omega_j()).collect();
        if let Some(k) = pts.iter().position(|p| *p == w) {
            return (0..n).map(|i| Fp::from((i == k) as u64)).collect();
        }
        // prod_{j != i} (w - p_j) / (p_i - p_j), by definition.
        let all: Fp = pts.iter().map(|p| w - p).product();
        pts.iter()
            .map(|p| {
                let den: Fp = pts.iter().filter(|q| *q != p).map(|q| *p - q).product();
                all * ((w - p) * den).invert().unwrap()
            })
            .collect()
    }
    fn m(&self, w: Fp, x: Fp, y: Fp) -> Fp {
        let l = self.weights(w);
        let s: Fp = (0..self.solo.len()).filter(|i| l[*i] != Fp::ZERO).map(|i| l[i] * self.s(i, x, y)).sum();
        s + key_term(self.key, x, y)
    }
    /// Whether the answer is the registry polynomial's.
    fn explains(&self, q: &Ask, a: &Answer, rng: &mut Rng) -> std::result::Result<(), String> {
        let probe = |rng: &mut Rng| field(rng);
        let ok = |c: bool, what: &str| if c { Ok(()) } else { Err(what.to_string()) };
        let n = self.solo.len() as u32;
        let om = |i: &u32| CircuitIndex::from_u32(i % n).omega_j::<Fp>();
        match (q, a) {
            (Ask::Xy(x, y), Answer::Poly(p)) => {
                let w = probe(rng);
                let mut good = horner(p, w) == self.m(w, point(x), point(y));
                // And at every registered point.
                for i in 0..n {
                    let w = om(&i);
                    good &= horner(p, w) == self.s(i as usize, point(x), point(y)) + key_term(self.key, point(x), point(y));
                }
                ok(good, "xy(x, y) is not the registry polynomial at x, y")
            }
            (Ask::Wx(w, x), Answer::Poly(p)) => {
                let y = probe(rng);
                ok(
                    horner(p, y) == self.m(point(w), point(x), y) && p[0] == self.m(point(w), point(x), Fp::ZERO),
                    "wx(w, x) is not the registry polynomial at w, x",
                )
            }
            (Ask::Wy(w, y), Answer::Poly(p)) => {
                let x = probe(rng);
                ok(
                    horner(p, x) == self.m(point(w), x, point(y)) && p[0] == self.m(point(w), Fp::ZERO, point(y)),
                    "wy(w, y) is not the registry polynomial at w, y",
                )
            }
            (Ask::Wxy(w, x, y), Answer::Value(v)) => {
                ok(*v == self.m(point(w), point(x), point(y)), "wxy(w, x, y) is not the registry polynomial there")
            }
            (Ask::At(w, qs), Answer::Many(v)) => {
                for ((k, x, y), a) in qs.iter().zip(v) {
                    let q = match k {
                        0 => Ask::Wx(w.clone(), x.clone()),
                        1 => Ask::Wy(w.clone(), y.clone()),
                        _ => Ask::Wxy(w.clone(), x.clone(), y.clone()),
                    };
                    self.explains(&q, a, rng).map_err(|e| format!("at(w): {e}"))?;
                }
                ok(qs.len() == v.len(), "answers lost")
            }
            (Ask::CircuitY(i, y), Answer::Poly(p)) => {
                let x = probe(rng);
                ok(
                    horner(p, x) == self.s((i % n) as usize, x, point(y)) + key_term(self.key, x, point(y)),
                    "circuit_y is not the circuit's own polynomial",
                )
            }
            (Ask::CircuitXy(i, x, y), Answer::Value(v)) => ok(
                *v == self.s((i % n) as usize, point(x), point(y)) + key_term(self.key, point(x), point(y)),
                "circuit_xy is not the circuit's own polynomial",
            ),
            (Ask::Shape, Answer::Shape(c, d)) => {
                let dom = n.next_power_of_two() as usize;
                ok(*c == self.counts, "constraint counts differ from the circuit registered alone")?;
                ok(d.iter().enumerate().all(|(i, b)| *b == (i < dom)), "circuit_in_domain is wrong")
            }
            _ => Err("an answer of another kind".into()),
        }
    }
}

fn execute(case: &Case) -> Outcome {
    let mut o = Outcome::default();
    let mut rng = Rng::new(case.sim.seed ^ 0xC15);
    // Programs over the bound are replaced.
    let nodes: Vec<Arc<RNode>> = case
        .programs
        .iter()
        .map(|n| {
            let node = Arc::new(n.clone());
            let raw = Raw { node: node.clone(), sc: Arc::new(Script::default()) };
            match RegistryBuilder::<Fp, R>::new().register_circuit(raw) {
                Ok(_) => node,
                Err(_) => {
                    o.count("probe.program_over_bound", 1);
                    Arc::new(RNode { known: false, shape: 0, ty: 0, ops: vec![ROp::Alloc, ROp::Pin(vec![(0, 7)], 0)] })
                }
            }
        })
        .collect();
    let quiet = Arc::new(Script::default());
    if case.entries.len() > R::num_coeffs() {
        o.count("fault.too_many_circuits", 1);
        match register(&case.entries, &nodes, &quiet, case.nodes[0]) {
            Err(Error::CircuitBoundExceeded { .. }) => {}
            Err(e) => o.fail("registration-error", format!("too many circuits: {e}")),
            Ok(_) => o.fail("registration-error", "more circuits than the bound were registered"),
        }
        return o;
    }
    for (kind, seed) in &case.forged {
        match forged(&nodes, *kind, *seed) {
            Ok(Some(true)) => {
                o.fail("digest-shared", format!("two registrations alike where variable {} is fixed share a digest", kind % 3))
            }
            Ok(Some(false)) => o.count("fault.forged_registration", 1),
            Ok(None) => o.count("probe.not_forged", 1),
            Err(e) => o.fail("registration-error", format!("{e}")),
        }
    }
    // Final order: categories in turn.
    let mut order: Vec<&Entry> = case.entries.iter().collect();
    order.sort_by_key(|e| e.category());
    let mut solo = Vec::new();
    for e in &order {
        match register(&[(*e).clone()], &nodes, &quiet, 0) {
            Ok(r) => solo.push(r),
            Err(e) => {
                o.fail("registration-error", format!("{e}"));
                return o;
            }
        }
    }
    let base = match register(&case.entries, &nodes, &quiet, 0) {
        Ok(r) => r,
        Err(e) => {
            o.fail("registration-error", format!("{e}"));
            return o;
        }
    };
    let counts = solo.iter().map(|r| r.constraint_counts(CircuitIndex::from_u32(0))).collect();
    let model = Model { solo, key: base.digest(), counts };
    // Every node registers, at once, under the simulator.
    let nn = case.nodes.len();
    let scripts: Vec<Arc<Script>> =
        (0..nn).map(|_| Arc::new(Script { yields: true, ..Script::default() })).collect();
    let built: Mutex<Vec<Option<Registry<'static, Fp, R>>>> = Mutex::new((0..nn).map(|_| None).collect());
    let notes: Mutex<Vec<(&'static str, String)>> = Mutex::default();
    let crashes = Mutex::new((0u64, 0u64));
    let mut clients: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
    for k in 0..nn {
        let (scripts, built, notes, crashes, nodes) = (&scripts, &built, &notes, &crashes, &nodes);
        let fuse = case.fuses.get(k).copied().unwrap_or(0);
        clients.push(Box::new(move || {
            scripts[k].fuse.store(fuse as i64, Ordering::SeqCst);
            for _ in 0..2 {
                let before = scripts[k].blown.load(Ordering::SeqCst);
                let r = guard(|| register(&case.entries, nodes, &scripts[k], case.nodes[k]));
                let blown = scripts[k].blown.load(Ordering::SeqCst) > before;
                match (r, blown) {
                    (Err(p), _) if p.contains(INJECTED) => {
                        crashes.lock().unwrap().0 += 1;
                        continue;
                    }
                    (Ok(Ok(r)), false) => built.lock().unwrap()[k] = Some(r),
                    (Err(p), _) => notes.lock().unwrap().push(("panic", format!("registering on node {k}: {p}"))),
                    (Ok(Err(e)), _) => notes.lock().unwrap().push(("registration-error", format!("node {k}: {e}"))),
                    (Ok(Ok(_)), true) => notes.lock().unwrap().push(("swallowed-panic", format!("registering on node {k}"))),
                }
                break;
            }
            scripts[k].fuse.store(0, Ordering::SeqCst);
        }));
    }
    let (rep, panics) = simrt::run(case.sim.config(), clients);
    o.absorb_report(&rep);
    o.decisions = rep.decisions.clone();
    for p in panics.into_iter().flatten() {
        o.fail("panic", format!("a node panicked: {}", panic_text(&*p)));
    }
    let regs: Vec<Registry<'static, Fp, R>> = built.into_inner().unwrap().into_iter().flatten().collect();
    for (c, d) in notes.lock().unwrap().drain(..) {
        o.fail(c, d);
    }
    if regs.len() != nn {
        if o.violations.is_empty() {
            o.fail("lost-call", "a registration did not return".to_string());
        }
        return o;
    }
    for (k, r) in regs.iter().enumerate() {
        if r.digest() != base.digest() {
            o.fail("digest-differs", format!("node {k} registered the same circuits and got another digest"));
        }
        if r.num_circuits() != case.entries.len() {
            o.fail("wrong-answer", format!("node {k} counts {} circuits", r.num_circuits()));
        }
    }
    // Readers, concurrently, on any node's registry.
    let ncl = case.asks.iter().map(|a| a.0).max().unwrap_or(0) as usize + 1;
    let got: Mutex<Vec<(usize, Answer)>> = Mutex::default();
    let mut clients: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
    for c in 0..ncl {
        let (scripts, regs, notes, crashes, got) = (&scripts, &regs, &notes, &crashes, &got);
        clients.push(Box::new(move || {
            for (k, (_, node, q, fuse)) in case.asks.iter().enumerate().filter(|(_, a)| a.0 as usize == c) {
                let node = *node as usize % nn;
                // A fuse may blow in whichever reader of this node is running.
                if *fuse > 0 {
                    scripts[node].fuse.store(*fuse as i64, Ordering::SeqCst);
                }
                for _ in 0..64 {
                    match guard(|| ask(&regs[node], q)) {
                        Ok(a) => got.lock().unwrap().push((k, a)),
                        Err(p) => {
                            if p.contains(INJECTED) {
                                crashes.lock().unwrap().1 += 1;
                                continue;
                            }
                            notes.lock().unwrap().push(("panic", format!("question {k}: {p}")));
                        }
                    }
                    break;
                }
            }
        }));
    }
    let mut sim = case.sim.clone();
    sim.seed ^= 0x5EED;
    sim.decisions = Default::default();
    let (rep2, panics) = simrt::run(sim.config(), clients);
    o.absorb_report(&rep2);
    for p in panics.into_iter().flatten() {
        o.fail("panic", format!("a reader panicked: {}", panic_text(&*p)));
    }
    for (c, d) in notes.into_inner().unwrap() {
        o.fail(c, d);
    }
    let (c0, c1) = crashes.into_inner().unwrap();
    o.count("fault.panic_while_registering", c0);
    o.count("fault.panic_while_reading", c1);
    let mut got = got.into_inner().unwrap();
    got.sort_by_key(|g| g.0);
    if o.violations.is_empty() && got.len() != case.asks.len() {
        o.fail("lost-call", format!("{} of {} questions answered", got.len(), case.asks.len()));
    }
    for (k, a) in &got {
        o.mix(a.hash(k.wrapping_add(1) as u64));
        if let Err(e) = model.explains(&case.asks[*k].2, a, &mut rng) {
            o.fail("wrong-answer", format!("question {k} ({:?}): {e}", case.asks[*k].2));
        }
    }
    o.count("probe.answers", got.len() as u64);
    // Registries that differ, and digests that differ, are the same ones.
    let (w, x, y) = (field(&mut rng), field(&mut rng), field(&mut rng));
    let listed = |en: &[Entry]| {
        let mut v: Vec<Entry> = en.to_vec();
        v.sort_by_key(|e| e.category());
        v.into_iter()
            .map(|e| match e {
                Entry::Circuit(_, n) => format!("{:?}", nodes[n as usize % nodes.len()]),
                Entry::Mask(k, f) => format!("{} {f}", k % 4),
            })
            .collect::<Vec<_>>()
    };
    let mut seen = vec![(model.m(w, x, y) - key_term(model.key, x, y), base.digest(), listed(&case.entries))];
    for e in &case.edits {
        let mut en: Vec<Entry> = case.entries.clone();
        let i = e.1 as usize % en.len();
        let j = e.2 as usize % en.len();
        match e.0 {
            0 => en.swap(i, j),
            1 if en.len() > 1 => {
                en.remove(i);
            }
            2 if en.len() < R::num_coeffs() => en.push(en[i].clone()),
            3 => {
                if let Entry::Circuit(_, n) = &mut en[i] {
                    *n = e.2;
                }
            }
            4 => {
                if let Entry::Circuit(c, _) = &mut en[i] {
                    *c = [0, 2, 3][e.2 as usize % 3];
                }
            }
            _ => {
                if let Entry::Mask(k, f) = &mut en[i] {
                    if e.2 % 2 == 0 { *k = e.2 as u8 % 4 } else { *f = !*f }
                }
            }
        }
        let r = match register(&en, &nodes, &quiet, 0) {
            Ok(r) => r,
            Err(e) => {
                o.fail("registration-error", format!("{e}"));
                continue;
            }
        };
        seen.push((r.wxy(w, x, y) - key_term(r.digest(), x, y), r.digest(), listed(&en)));
        o.count("fault.registered_otherwise", 1);
    }
    for a in 0..seen.len() {
        for b in a + 1..seen.len() {
            match (seen[a].0 == seen[b].0, seen[a].1 == seen[b].1) {
                (_, false) if seen[a].2 == seen[b].2 => o.fail("digest-differs", format!("registrations {a} and {b} list the same circuits and have two digests")),
                (false, true) => o.fail("digest-shared", format!("registrations {a} and {b} differ but share a digest")),
                (false, false) => o.count("probe.digests_apart", 1),
                _ => {}
            }
        }
    }
    o.nontrivial = nn > 1 && got.len() > 1 && case.entries.len() > 1;
    o.distinct.push(hash2(rep.schedule_hash, rep2.schedule_hash));
    o
}

fn gen_point(rng: &mut Rng, n: u64) -> Point {
    match rng.below(12) {
        0 => Point::Zero,
        1 => Point::One,
        2 => Point::MinusOne,
        3 | 4 => Point::Omega(rng.below(n) as u32),
        5 => Point::Omega(rng.below(2 * n + 2) as u32),
        6 => Point::Omega(rng.below(1 << 20) as u32),
        _ => Point::Rand(rng.next()),
    }
}

fn gen_w(rng: &mut Rng, n: u64) -> Point {
    match rng.below(8) {
        0 | 1 => Point::Omega(rng.below(n) as u32),
        2 | 3 => Point::Omega(rng.below(2 * n + 2) as u32),
        4 => gen_point(rng, n),
        _ => Point::Rand(rng.next()),
    }
}

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn budget(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 35 } else { 1500 }
    }
    fn rule(&self) -> &'static str {
        "a seed draws 1-4 raw programs, 1-12 registrations of them and of stage masks in the four categories, 1-3 nodes registering them concurrently in their own interleavings (synthesis may panic and is retried), 2-14 questions by 1-3 concurrent readers at random, zero, in-domain and out-of-domain points (readers may panic and are retried), and edited registrations; non-trivial when more than one node, entry and question took part; distinct by schedule hashes and case"
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let np = 1 + rng.below(4);
        let programs = (0..np)
            .map(|_| {
                let sh = RShape { max_depth: 1 + rng.below(3) as u32, max_nodes: 1 + rng.below(5) as u32, max_ops: 6, known_pct: 50 };
                let mut left = sh.max_nodes;
                gen_raw(&mut rng, &sh, 0, &mut left)
            })
            .collect();
        let ne = match rng.below(100) {
            0 => [16, 17, 63, 64, 65][rng.below(5) as usize],
            1 => [126, 127, 128, 129, 130][rng.below(5) as usize],
            _ => 1 + rng.below(if tier == Tier::Thorough { 24 } else { 10 }),
        };
        let small = ne > 30;
        let entries = (0..ne)
            .map(|_| match rng.below(if small { 1 } else { 5 }) {
                0 => Entry::Mask(rng.below(4) as u8, rng.below(2) == 0),
                k => Entry::Circuit([0, 2, 3, 3][k as usize - 1], rng.below(np) as u16),
            })
            .collect();
        let nn = 1 + rng.below(3);
        let nodes: Vec<u64> = (0..nn).map(|_| rng.next()).collect();
        let fuses = (0..nn).map(|_| if rng.below(4) == 0 { 1 + rng.below(60) } else { 0 }).collect();
        let ncl = 1 + rng.below(3);
        let asks = (0..2 + rng.below(13))
            .map(|_| {
                let p = |rng: &mut Rng| gen_point(rng, ne);
                let w = |rng: &mut Rng| gen_w(rng, ne);
                let q = match rng.below(9) {
                    0 | 1 => Ask::Xy(p(&mut rng), p(&mut rng)),
                    2 => Ask::Wx(w(&mut rng), p(&mut rng)),
                    3 => Ask::Wy(w(&mut rng), p(&mut rng)),
                    4 => Ask::Wxy(w(&mut rng), p(&mut rng), p(&mut rng)),
                    5 => {
                        let k = 1 + rng.below(4);
                        Ask::At(w(&mut rng), (0..k).map(|_| (rng.below(3) as u8, p(&mut rng), p(&mut rng))).collect())
                    }
                    6 => Ask::CircuitY(rng.below(32) as u32, p(&mut rng)),
                    7 => Ask::CircuitXy(rng.below(32) as u32, p(&mut rng), p(&mut rng)),
                    _ => Ask::Shape,
                };
                let f = if rng.below(6) == 0 { 1 + rng.below(40) } else { 0 };
                (rng.below(ncl) as u8, rng.below(nn) as u8, q, f)
            })
            .collect();
        let edits = (0..rng.below(4)).map(|_| (rng.below(6) as u8, rng.below(64) as u16, rng.below(64) as u16)).collect();
        let forged = if rng.chance(1, 6) { vec![(rng.below(3) as u8, rng.next() >> 1)] } else { vec![] };
        serde_json::to_value(Case { sim: SimCase::draw(&mut rng), programs, entries, nodes, fuses, asks, edits, forged }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        execute(&serde_json::from_value(case.clone()).expect("case"))
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = shrink_sim(case);
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let mut push = |d: Case| v.push(serde_json::to_value(d).unwrap());
        if c.asks.len() > 1 {
            for h in 0..2 {
                let mut d = c.clone();
                let m = c.asks.len() / 2;
                d.asks = if h == 0 { c.asks[..m].to_vec() } else { c.asks[m..].to_vec() };
                push(d);
            }
        }
        for i in 0..c.asks.len() {
            let mut d = c.clone();
            d.asks.remove(i);
            push(d);
            if c.asks[i].3 > 0 {
                let mut d = c.clone();
                d.asks[i].3 = 0;
                push(d);
            }
        }
        if !c.forged.is_empty() {
            push(Case { forged: vec![], ..c.clone() });
        }
        for i in 0..c.edits.len() {
            let mut d = c.clone();
            d.edits.remove(i);
            push(d);
        }
        if c.nodes.len() > 1 {
            let mut d = c.clone();
            d.nodes.pop();
            push(d);
        }
        for i in 0..c.entries.len() {
            if c.entries.len() > 1 {
                let mut d = c.clone();
                d.entries.remove(i);
                push(d);
            }
        }
        for i in 0..c.fuses.len() {
            if c.fuses[i] > 0 {
                let mut d = c.clone();
                d.fuses[i] = 0;
                push(d);
            }
        }
        for i in 0..c.programs.len() {
            for s in c.programs[i].shrinks() {
                let mut d = c.clone();
                d.programs[i] = s;
                push(d);
            }
        }
        v
    }
}
