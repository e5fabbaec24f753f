//! Raw circuit programs: random trees of routines issuing gates, linear
//! combinations and constraints directly, whose wire values come from a script
//! the prover is free to write.

use crate::engine::hash2;
use crate::rec::{Lc, Live};
use ff::Field;
use ragu_arithmetic::Coeff;
use ragu_circuits::{Circuit, WithAux};
use ragu_core::{
    Result,
    drivers::{Driver, DriverValue, LinearExpression},
    gadgets::{Bound, Kind},
    maybe::{Maybe, MaybeKind},
    routines::{Prediction, Routine},
};
use ragu_pasta::Fp;
use ragu_primitives::{
    Element,
    vec::{CollectFixed, ConstLen, FixedVec},
};
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RNode {
    pub known: bool,
    pub shape: u8,
    pub ty: u8,
    pub ops: Vec<ROp>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Alloc,
    /// 0: `mul`, product wire; 1: `mul`, all wires; 2: `gate` with a free `d`;
    /// 3: `gate`, all four wires.
    Gate(u8),
    /// A virtual wire: terms (register, coefficient), gain before term k.
    Lin(Vec<(u8, u8)>, u8),
    Const(u8),
    /// A fresh wire and a constraint that sets it to minus the combination.
    Pin(Vec<(u8, u8)>, u8),
    /// `x - x = 0`.
    Same(u8),
    Empty,
    Call(Box<RNode>, u8, u8, u8),
}

#[derive(Clone, Copy)]
pub struct RShape {
    pub max_depth: u32,
    pub max_nodes: u32,
    pub max_ops: u32,
    pub known_pct: u64,
}

/// No gain, mostly, or any.
fn gain(rng: &mut Rng) -> u8 {
    if rng.below(3) == 0 { rng.below(GAINS) as u8 } else { 0 }
}

fn terms(rng: &mut Rng) -> Vec<(u8, u8)> {
    (0..1 + rng.below(4)).map(|_| (rng.below(20) as u8, (if rng.below(3) == 0 { rng.below(COEFFS) } else { rng.below(12) }) as u8)).collect()
}

pub fn gen_raw(rng: &mut Rng, sh: &RShape, depth: u32, left: &mut u32) -> RNode {
    let mut ops = Vec::new();
    // Now and then a long stretch, so what follows sits far from the start.
    let burst = if rng.below(24) == 0 { 1 + rng.below(sh.max_ops as u64) } else { u64::MAX };
    for i in 0..1 + rng.below(sh.max_ops as u64) {
        let r = |rng: &mut Rng| rng.below(20) as u8;
        if i == burst - 1 {
            let k = rng.below(3);
            for _ in 0..8 + rng.below(80) {
                ops.push(match (k, rng.below(8)) {
                    (0, 0) | (1, 1..=3) => ROp::Pin(terms(rng), gain(rng)),
                    (2, 4..) => ROp::Alloc,
                    _ => ROp::Same(r(rng)),
                });
            }
        }
        ops.push(match rng.below(18) {
            0..=2 => ROp::Alloc,
            3 | 4 => ROp::Gate(rng.below(4) as u8),
            5 | 6 => ROp::Lin(terms(rng), gain(rng)),
            7 => ROp::Const(rng.below(12) as u8),
            8..=11 => ROp::Pin(terms(rng), gain(rng)),
            12 => ROp::Same(r(rng)),
            13 => {
                if rng.below(2) == 0 {
                    ROp::Empty
                } else {
                    ROp::Alloc
                }
            }
            _ if depth < sh.max_depth && *left > 0 => {
                *left -= 1;
                // Every so often, an exact copy of a sibling.
                let twin = ops.iter().rev().find_map(|o| match o {
                    ROp::Call(n, ..) => Some(n.clone()),
                    _ => None,
                });
                let child = match twin {
                    Some(t) if rng.below(3) == 0 => t,
                    _ => Box::new(gen_raw(rng, sh, depth + 1, left)),
                };
                ROp::Call(child, r(rng), r(rng), r(rng))
            }
            _ => ROp::Pin(terms(rng), gain(rng)),
        });
    }
    RNode { known: rng.below(100) < sh.known_pct, shape: rng.below(3) as u8, ty: rng.below(3) as u8, ops }
}

impl RNode {
    pub fn calls(&self) -> (u64, u64) {
        let mut t = (0, 0);
        for op in &self.ops {
            if let ROp::Call(c, ..) = op {
                let (a, b) = c.calls();
                t.0 += 1 + a;
                t.1 += c.known as u64 + b;
            }
        }
        t
    }
    pub fn shrinks(&self) -> Vec<RNode> {
        let mut v = Vec::new();
        for part in [2, 4, 8] {
            let k = self.ops.len() / part;
            for i in 0..if k > 1 { part } else { 0 } {
                let mut n = self.clone();
                n.ops.drain(i * k..(i + 1) * k);
                v.push(n);
            }
        }
        for i in 0..self.ops.len() {
            if self.ops.len() > 1 {
                let mut n = self.clone();
                n.ops.remove(i);
                v.push(n);
            }
            if let ROp::Call(c, a, b, d) = &self.ops[i] {
                for s in c.shrinks() {
                    let mut n = self.clone();
                    n.ops[i] = ROp::Call(Box::new(s), *a, *b, *d);
                    v.push(n);
                }
            }
        }
        v
    }
}

/// A value in one of the forms a program may hand it over in.
fn dress(v: Fp) -> Coeff<Fp> {
    let two = Fp::ONE.double();
    match ragu_arithmetic::low_u64(&v) >> 3 & 1 {
        0 if v == Fp::ZERO => Coeff::Zero,
        0 if v == Fp::ONE => Coeff::One,
        0 if v == two => Coeff::Two,
        1 => Coeff::NegativeArbitrary(-v),
        _ if v == -Fp::ONE => Coeff::NegativeOne,
        _ => Coeff::Arbitrary(v),
    }
}

pub fn coeff(k: u8) -> Coeff<Fp> {
    match k {
        0 => Coeff::One,
        1 => Coeff::NegativeOne,
        2 => Coeff::Two,
        3 => Coeff::Zero,
        4 => Coeff::NegativeArbitrary(Fp::from(3)),
        5 => Coeff::Arbitrary(Fp::ONE),
        6 => Coeff::Arbitrary(Fp::ZERO),
        _ => Coeff::Arbitrary(Fp::from(k as u64 * 7919 + 11)),
    }
}

/// What the prover answers when asked for wire values.
#[derive(Default)]
pub struct Script {
    pub vals: HashMap<u64, [Fp; 4]>,
    pub log: Option<Mutex<Vec<Ask>>>,
    /// Counts down on synthesis steps; panics at zero.
    pub fuse: AtomicI64,
    pub blown: AtomicU64,
    /// Whether synthesis steps are scheduling points.
    pub yields: bool,
}

pub const INJECTED: &str = "injected-synthesis-panic";

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ask {
    pub site: u64,
    pub kind: u8,
}
pub const ALLOC: u8 = 0;
pub const PIN: u8 = 1;
pub const MUL: u8 = 2;
pub const FREE_D: u8 = 3;
pub const FULL: u8 = 4;

impl Script {
    fn get(&self, site: u64, kind: u8) -> [Fp; 4] {
        if let Some(l) = &self.log {
            l.lock().unwrap().push(Ask { site, kind });
        } else {
            simrt::yield_point();
        }
        self.vals.get(&site).copied().unwrap_or([Fp::ZERO; 4])
    }
    fn step(&self) {
        if self.yields {
            simrt::yield_point();
        }
        if self.fuse.load(Ordering::SeqCst) > 0 && self.fuse.fetch_sub(1, Ordering::SeqCst) == 1 {
            self.blown.fetch_add(1, Ordering::SeqCst);
            std::panic::panic_any(INJECTED.to_string());
        }
    }
}

fn sub(path: u64, k: u64) -> u64 {
    hash2(path, k + 1)
}

/// The gain a combination of `n` terms applies before term `k` (`n`: last).
fn gain_at(gain: u8, k: usize) -> Option<Coeff<Fp>> {
    let (at, kind) = ((gain.checked_sub(1)? % 4) as usize, (gain - 1) / 4);
    if k == at || (kind % 2 == 1 && k > at) {
        return Some(match kind / 2 {
            0 => Coeff::Arbitrary(Fp::from(5)),
            1 => Coeff::Two,
            2 => Coeff::NegativeOne,
            3 => Coeff::NegativeArbitrary(Fp::from(7)),
            4 => Coeff::Arbitrary(-Fp::from(9)),
            _ => Coeff::One,
        });
    }
    None
}
/// Gains are below this.
pub const GAINS: u64 = 49;
/// Terms' coefficients: 12 values added one by one, or together.
pub const COEFFS: u64 = 24;

pub fn combine<W: Clone, L: LinearExpression<W, Fp>>(lc: L, regs: &[W], terms: &[(u8, u8)], gain: u8) -> L {
    let mut lc = lc;
    let mut k = 0;
    while k < terms.len() {
        if let Some(g) = gain_at(gain, k) {
            lc = lc.gain(g);
        }
        let (r, c) = terms[k];
        let w = &regs[r as usize % regs.len()];
        k += 1;
        lc = match c {
            0 => lc.add(w),
            1 => lc.sub(w),
            c if c < 12 => lc.add_term(w, coeff(c)),
            c => {
                // With those that follow, up to the next gain.
                let mut all = vec![(w.clone(), coeff(c % 12))];
                while k < terms.len() && terms[k].1 >= 12 && gain_at(gain, k).is_none() {
                    let (r, c) = terms[k];
                    all.push((regs[r as usize % regs.len()].clone(), coeff(c % 12)));
                    k += 1;
                }
                lc.extend(all)
            }
        };
    }
    match gain_at(gain, k) {
        Some(g) => lc.gain(g),
        None => lc,
    }
}

/// What [`combine`] means.
pub fn combined(regs: &[Fp], terms: &[(u8, u8)], gain: u8) -> Fp {
    let (mut sum, mut g) = (Fp::ZERO, Fp::ONE);
    for (k, (r, c)) in terms.iter().enumerate() {
        if let Some(x) = gain_at(gain, k) {
            g *= crate::rec::cval(x);
        }
        sum += regs[*r as usize % regs.len()] * crate::rec::cval(coeff(c % 12)) * g;
    }
    sum
}

pub fn run<'dr, D: Driver<'dr, F = Fp>>(
    dr: &mut D,
    node: &RNode,
    sc: &Arc<Script>,
    path: u64,
    input: Vec<D::Wire>,
) -> Result<(D::Wire, D::Wire)> {
    let mut regs: Vec<D::Wire> = input;
    regs.push(D::ONE);
    for (i, op) in node.ops.iter().enumerate() {
        sc.step();
        let site = sub(path, i as u64);
        let g = |r: &u8| regs[*r as usize % regs.len()].clone();
        let ar = |v: [Fp; 4]| v.map(dress);
        match op {
            ROp::Alloc => {
                let w = dr.alloc(|| Ok(dress(sc.get(site, ALLOC)[0])))?;
                regs.push(w);
            }
            ROp::Gate(m) if *m < 2 => {
                let (a, b, c) = dr.mul(|| {
                    let [a, b, c, _] = ar(sc.get(site, MUL));
                    Ok((a, b, c))
                })?;
                if *m == 1 {
                    regs.push(a);
                    regs.push(b);
                }
                regs.push(c);
            }
            ROp::Gate(m) => {
                let (a, b, c, d) = dr.gate(|| {
                    let [a, b, c, d] = ar(sc.get(site, if *m == 2 { FREE_D } else { FULL }));
                    Ok((a, b, c, d))
                })?;
                if *m == 3 {
                    regs.extend([a, b, c]);
                } else {
                    regs.push(b);
                }
                regs.push(d);
            }
            ROp::Lin(t, gain) => {
                let w = dr.add(|lc| combine(lc, &regs, t, *gain));
                regs.push(w);
            }
            ROp::Const(k) => {
                let w = dr.constant(coeff(*k));
                regs.push(w);
            }
            ROp::Pin(t, gain) => {
                let w = dr.alloc(|| Ok(dress(sc.get(site, PIN)[0])))?;
                dr.enforce_zero(|lc| combine(lc, &regs, t, *gain).add(&w))?;
                regs.push(w);
            }
            ROp::Same(r) => {
                let w = g(r);
                dr.enforce_zero(|lc| lc.add(&w).sub(&w))?;
            }
            ROp::Empty => dr.enforce_zero(|lc| lc)?,
            ROp::Call(n, a, b, c) => {
                let el = |r: &u8| Element::promote(g(r), D::just(|| Fp::ZERO));
                let (node, sc, path) = (Arc::new((**n).clone()), sc.clone(), site);
                macro_rules! call {
                    ($t:literal) => {
                        match n.shape {
                            0 => dr.routine(Q0::<$t> { node, sc, path }, el(a))?.wire().clone(),
                            1 => {
                                let input: FixedVec<_, ConstLen<3>> =
                                    [el(a), el(b), el(c)].into_iter().collect_fixed()?;
                                let o = dr.routine(Q1::<$t> { node, sc, path }, input)?;
                                regs.push(o[0].wire().clone());
                                o[1].wire().clone()
                            }
                            _ => dr.routine(Q2::<$t> { node, sc, path }, ())?.wire().clone(),
                        }
                    };
                }
                let w = match n.ty {
                    0 => call!(0),
                    1 => call!(1),
                    _ => call!(2),
                };
                regs.push(w);
            }
        }
    }
    let n = regs.len();
    Ok((regs[n - 1].clone(), regs[n / 2].clone()))
}

macro_rules! routine {
    ($name:ident, $in:ty, $out:ty, $unpack:expr, $pack:expr) => {
        #[derive(Clone)]
        pub struct $name<const T: usize> {
            node: Arc<RNode>,
            sc: Arc<Script>,
            path: u64,
        }
        impl<const T: usize> Routine<Fp> for $name<T> {
            type Input = $in;
            type Output = $out;
            type Aux<'dr> = ();

            fn execute<'dr, D: Driver<'dr, F = Fp>>(
                &self,
                dr: &mut D,
                input: Bound<'dr, D, Self::Input>,
                _: DriverValue<D, ()>,
            ) -> Result<Bound<'dr, D, Self::Output>> {
                let input: Vec<D::Wire> = $unpack(input);
                let (a, b) = run(dr, &self.node, &self.sc, self.path, input)?;
                let p = |w| Element::promote(w, D::just(|| Fp::ZERO));
                $pack((p(a), p(b)))
            }

            fn predict<'dr, D: Driver<'dr, F = Fp, Wire = ()>>(
                &self,
                _: &mut D,
                _: &Bound<'dr, D, Self::Input>,
            ) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> {
                if !self.node.known {
                    return Ok(Prediction::Unknown(D::unit()));
                }
                let p = || Element::promote((), D::just(|| Fp::ZERO));
                let o: Result<_> = $pack((p(), p()));
                Ok(Prediction::Known(o?, D::unit()))
            }
        }
    };
}

routine!(Q0, Kind![Fp; Element<'_, _>], Kind![Fp; Element<'_, _>], |i: Element<'dr, D>| vec![i.wire().clone()], |o: (_, _)| {
    Ok(o.0)
});
routine!(
    Q1,
    FixedVec<PhantomData<Kind![Fp; Element<'_, _>]>, ConstLen<3>>,
    FixedVec<PhantomData<Kind![Fp; Element<'_, _>]>, ConstLen<2>>,
    |i: FixedVec<Element<'dr, D>, ConstLen<3>>| i.iter().map(|e| e.wire().clone()).collect(),
    |o: (_, _)| [o.0, o.1].into_iter().collect_fixed()
);
routine!(Q2, (), Kind![Fp; Element<'_, _>], |_| vec![], |o: (_, _)| Ok(o.0));

/// The circuit: no witness (the script is the witness), two outputs.
#[derive(Clone)]
pub struct Raw {
    pub node: Arc<RNode>,
    pub sc: Arc<Script>,
}

pub type Pair = FixedVec<PhantomData<Kind![Fp; Element<'_, _>]>, ConstLen<2>>;

impl Circuit<Fp> for Raw {
    type Instance<'s> = [Fp; 2];
    type Witness<'s> = ();
    type Output = Pair;
    type Aux<'s> = ();

    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        instance: DriverValue<D, [Fp; 2]>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        let a = Element::alloc(dr, instance.as_ref().map(|v| v[0]))?;
        let b = Element::alloc(dr, instance.as_ref().map(|v| v[1]))?;
        [a, b].into_iter().collect_fixed()
    }

    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        _: DriverValue<D, ()>,
    ) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> {
        let (a, b) = run(dr, &self.node, &self.sc, 1, vec![])?;
        let p = |w| Element::promote(w, D::just(|| Fp::ZERO));
        Ok(WithAux::new([p(a), p(b)].into_iter().collect_fixed()?, D::unit()))
    }
}

/// The gates and constraints of a program, as one plain synthesis issues them.
pub struct Plan {
    pub asks: Vec<Ask>,
    /// First variable of each ask.
    pub first: Vec<u32>,
    /// Indices into `asks`.
    pub pins: Vec<usize>,
    pub gates: Vec<usize>,
    /// Indices into `gates` of those whose fourth wire can be set.
    pub fourth: Vec<usize>,
    /// The constraint of each pin, its own variable included.
    pub lins: Vec<Lc>,
    pub outs: [Lc; 2],
    /// Values of the variables before the first ask.
    pub prefix: Vec<Fp>,
    pub vars: usize,
}

pub fn logging() -> Arc<Script> {
    Arc::new(Script { log: Some(Mutex::default()), ..Script::default() })
}

pub fn plan(node: &Arc<RNode>) -> Result<Plan> {
    let sc = logging();
    let mut dr = Live::new();
    let c = Raw { node: node.clone(), sc: sc.clone() };
    let o = c.witness(&mut dr, ragu_core::maybe::Always::maybe_just(|| ()))?.into_output();
    Ok(plan_of(&dr, &sc, [0, 1].map(|i| *o[i].wire())))
}

/// The plan of whatever was just synthesized; what the script was asked for
/// must be the last thing synthesized.
pub fn plan_of(dr: &Live, sc: &Script, outs: [u32; 2]) -> Plan {
    let outs = outs.map(|w| dr.wires[w as usize].clone());
    let asks = sc.log.as_ref().unwrap().lock().unwrap().clone();
    let size = |a: &Ask| if a.kind == ALLOC || a.kind == PIN { 1 } else { 4 };
    let base = dr.vars - asks.iter().map(size).sum::<usize>();
    let (mut first, mut v) = (vec![], base as u32);
    for a in &asks {
        first.push(v);
        v += size(a) as u32;
    }
    let of = |f: &dyn Fn(u8) -> bool| (0..asks.len()).filter(|i| f(asks[*i].kind)).collect::<Vec<_>>();
    let pins = of(&|k| k == PIN);
    let gates = of(&|k| k >= MUL);
    let mut lins: Vec<Lc> = dr.lins.iter().filter(|l| !l.is_empty()).cloned().collect();
    lins.drain(..lins.len() - pins.len());
    let fourth = (0..gates.len()).filter(|g| asks[gates[*g]].kind >= FREE_D).collect();
    Plan { pins, fourth, gates, lins, outs, prefix: dr.vals[..base].to_vec(), vars: dr.vars, first, asks }
}

/// How a script departs from satisfying the circuit.
#[derive(Clone, Debug, Default)]
pub struct Lies {
    pub lins: HashMap<usize, Fp>,
    /// Added to the product wire.
    pub gates: HashMap<usize, Fp>,
    /// Value given to the `d` wire of a gate whose `c` is not zero.
    pub ds: HashMap<usize, Fp>,
}

impl Plan {
    /// A script (and the two outputs it leads to) with exactly these lies.
    pub fn script(&self, seed: u64, lies: &Lies) -> (HashMap<u64, [Fp; 4]>, [Fp; 2], Vec<Fp>) {
        let mut vals = self.prefix.clone();
        vals.resize(self.vars, Fp::ZERO);
        let (mut pin, mut gate) = (0, 0);
        let mut out = HashMap::new();
        for (k, a) in self.asks.iter().enumerate() {
            let v = self.first[k] as usize;
            let mut r = Rng::new(hash2(seed, a.site));
            let mut draw = || match r.below(8) {
                0 => Fp::ZERO,
                1 => Fp::ONE,
                _ => Fp::from(r.next()) * Fp::from(r.next()),
            };
            match a.kind {
                ALLOC => {
                    vals[v] = draw();
                    out.insert(a.site, [vals[v], Fp::ZERO, Fp::ZERO, Fp::ZERO]);
                }
                PIN => {
                    let l = &self.lins[pin];
                    let own = l.iter().find(|t| t.0 as usize == v).map(|t| t.1).unwrap_or(Fp::ZERO);
                    let rest: Fp = l.iter().filter(|t| t.0 as usize != v).map(|(x, c)| vals[*x as usize] * c).sum();
                    let delta = lies.lins.get(&pin).copied().unwrap_or(Fp::ZERO);
                    vals[v] = (delta - rest) * own.invert().expect("a pin's own coefficient is not zero");
                    out.insert(a.site, [vals[v], Fp::ZERO, Fp::ZERO, Fp::ZERO]);
                    pin += 1;
                }
                _ => {
                    let (x, y) = (draw(), draw());
                    let mut w = [x, y, x * y, Fp::ZERO];
                    if a.kind == FREE_D {
                        w = [Fp::ZERO, y, Fp::ZERO, draw()];
                    }
                    if let Some(d) = lies.ds.get(&gate) {
                        if a.kind == FREE_D || w[2] == Fp::ZERO {
                            w = [Fp::from(3), Fp::from(4), Fp::from(12), *d];
                        } else {
                            w[3] = *d;
                        }
                    }
                    if let Some(d) = lies.gates.get(&gate) {
                        w[2] += d;
                        w[3] = Fp::ZERO;
                    }
                    vals[v..v + 4].copy_from_slice(&w);
                    out.insert(a.site, w);
                    gate += 1;
                }
            }
        }
        let ev = |l: &Lc| l.iter().map(|(x, c)| vals[*x as usize] * c).sum::<Fp>();
        let outs = [ev(&self.outs[0]), ev(&self.outs[1])];
        // The script violates exactly what it was asked to violate.
        for (k, l) in self.lins.iter().enumerate() {
            assert_eq!(ev(l), lies.lins.get(&k).copied().unwrap_or(Fp::ZERO));
        }
        (out, outs, vals)
    }
}
