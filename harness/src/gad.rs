//! Random programs over the in-circuit types (elements, booleans, points,
//! endoscalars, sponges, derived gadgets), run against any driver, and a plain
//! model of what each operation means.

use crate::circ::Env;
use crate::engine::{hash2, hash_str};
use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use group::{Curve, Group, prime::PrimeCurveAffine};
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
use ragu_arithmetic::{Coeff, Cycle, PoseidonPermutation, Uendo};
use ragu_circuits::{Circuit, WithAux};
use ragu_core::{
    Error, Result,
    convert::{CloneWires, WireMap},
    drivers::{Driver, DriverTypes, DriverValue, LinearExpression},
    gadgets::{Bound, Gadget, Kind},
    maybe::Maybe,
};
use ragu_pasta::{EpAffine, Fp, Fq, Pasta};
use ragu_primitives::{
    Boolean, Element, Endoscalar, GadgetExt, Point,
    consistent::Consistent,
    io::Write,
    multiadd, multipack,
    poseidon::{Sponge, SpongeState},
    vec::{CollectFixed, ConstLen, FixedVec},
};
use crate::raw::{COEFFS, GAINS, combine as lincomb, combined};
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::marker::PhantomData;
use std::sync::{Arc, OnceLock};

pub type Perm = <Pasta as Cycle>::CircuitPoseidon;

pub fn params() -> &'static <Pasta as Cycle>::Params {
    static P: OnceLock<&'static <Pasta as Cycle>::Params> = OnceLock::new();
    P.get_or_init(Pasta::baked)
}

pub fn perm() -> &'static Perm {
    Pasta::circuit_poseidon(params())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Val {
    U(u64),
    Neg(u64),
    /// A primitive `2^k`-th root of unity.
    Root(u8),
    Rand(u64),
}

impl Val {
    pub fn f(&self) -> Fp {
        match self {
            Val::U(v) => Fp::from(*v),
            Val::Neg(v) => -Fp::from(*v),
            Val::Root(k) => {
                let mut r = Fp::ROOT_OF_UNITY;
                for _ in 0..(Fp::S - (*k as u32).min(Fp::S)) {
                    r = r.square();
                }
                r
            }
            Val::Rand(s) => crate::props::field_of(*s),
        }
    }
    pub fn draw(rng: &mut Rng) -> Val {
        match rng.below(10) {
            0..=2 => Val::U(rng.below(4)),
            3 => Val::U(rng.below(200)),
            4 => Val::Neg(rng.below(140)),
            5 => Val::Root(rng.below(6) as u8),
            6 => Val::Root(rng.below(33) as u8),
            _ => Val::Rand(rng.next() >> 1),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum G {
    // inputs
    In(Val),
    InSq(Val),
    Bit(bool),
    Pt { k: u64, neg: bool },
    Endo(u64, u64),
    // elements
    Zero,
    Const(Val),
    Add(u8, u8),
    Sub(u8, u8),
    Mul(u8, u8),
    Sq(u8),
    Neg(u8),
    Dbl(u8),
    Scale(u8, u8, Val),
    AddCoeff(u8, u8, u8, Val),
    Inv(u8),
    InvWith(u8, bool),
    Div(u8, u8),
    IsZero(u8),
    IsEq(u8, u8),
    Fold(Vec<u8>, u8),
    Sum(Vec<u8>),
    Multiadd(Vec<(u8, Val)>),
    /// A combination (see `raw::combine`); the flag also enforces it, less
    /// its value on a fresh wire.
    Lin(Vec<(u8, u8)>, u8, bool),
    EnfZero(u8),
    EnfEq(u8, u8),
    EnfRoot(u8, u8),
    /// Enforce that a fresh sum of the register and its negation is zero.
    EnfSelf(u8),
    // booleans
    Not(u8),
    And(u8, u8),
    Sel(u8, u8, u8),
    CondEq(u8, u8, u8),
    ToElem(u8),
    Pack(Vec<u8>, u16),
    EnfEqB(u8, u8),
    Demote(u8),
    // points
    PConst(u64),
    PEndo(u8),
    PNeg(u8),
    PCondEndo(u8, u8),
    PCondNeg(u8, u8),
    PDbl(u8),
    PAdd(u8, u8),
    PAddChecked(u8, u8, u8),
    PDblAdd(u8, u8),
    PCoords(u8),
    EnfEqP(u8, u8),
    // endoscalars
    Extract(u8),
    Bits(u8, u8),
    GScale(u8, u8),
    Lift(u8),
    /// Carries an endoscalar over wire by wire and enforces it equal to another.
    EsEq(u8, u8),
    // sponge
    Fresh,
    Absorb(u8),
    AbsorbPt(u8),
    Squeeze,
    SaveResume(bool),
    // derived gadgets
    Own(u8, u8, u8),
    OwnRead(u8, u8),
    OwnEq(u8, u8),
    OwnHop(u8, Option<(u8, Val)>),
    OwnAbsorb(u8),
    Wired(u8, u8, u8, bool),
    /// Enforces equality of two composites of elements, then reads the first.
    Alike(u8, [u8; 5], [u8; 5]),
    // re-homed gadgets
    HopB(u8, Option<Val>),
    HopP(u8, Option<(u8, Val)>),
    // witness plumbing
    Mix(u8, u8, u8, u8),
}

pub type Prog = Vec<G>;

/// How a program first goes wrong.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// A constraint does not hold; value semantics go on.
    Unsat,
    /// No witness exists: drivers that hold one return `InvalidWitness`.
    Invalid,
    /// As `Invalid`, but the constraints leave the result open (0/0).
    Open,
    /// Misuse that every driver reports.
    Misuse,
}

// ---------------------------------------------------------------------------
// Derived gadgets
// ---------------------------------------------------------------------------

#[derive(Gadget, Write, Consistent)]
pub struct Inner<'dr, D: Driver<'dr>> {
    #[ragu(gadget)]
    e: Element<'dr, D>,
    #[ragu(gadget)]
    f: Boolean<'dr, D>,
}

#[derive(Gadget, Write, Consistent)]
pub struct Own<'dr, #[ragu(driver)] X: Driver<'dr>, T: Send + Clone + 'static> {
    #[ragu(gadget)]
    a: Element<'dr, X>,
    #[ragu(gadget)]
    flag: Boolean<'dr, X>,
    #[ragu(gadget)]
    inner: Inner<'dr, X>,
    #[ragu(gadget)]
    fixed: FixedVec<Boolean<'dr, X>, ConstLen<2>>,
    #[ragu(gadget)]
    arr: [Boolean<'dr, X>; 2],
    #[ragu(gadget)]
    pair: (Boolean<'dr, X>, Boolean<'dr, X>),
    #[ragu(gadget)]
    boxed: Box<Inner<'dr, X>>,
    #[ragu(gadget)]
    last: Element<'dr, X>,
    #[ragu(phantom)]
    _t: PhantomData<T>,
}

#[derive(Gadget)]
pub struct Wires<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    w: D::Wire,
    #[ragu(value)]
    v: DriverValue<D, Fp>,
    #[ragu(gadget)]
    g: Inner<'dr, D>,
    #[ragu(wire)]
    w2: D::Wire,
    #[ragu(value)]
    v2: DriverValue<D, Fp>,
    #[ragu(gadget)]
    fv: FixedVec<Element<'dr, D>, ConstLen<2>>,
}

pub const OWN_WIRES: usize = 12;
/// Which positions of the written form are booleans.
pub const OWN_BOOL: [bool; OWN_WIRES] =
    [false, true, false, true, true, true, true, true, true, true, false, true];
// The last element follows, making 13 written elements.
pub const OWN_LEN: usize = OWN_WIRES + 1;

fn own_bool(k: usize) -> bool {
    k < OWN_WIRES && OWN_BOOL[k]
}

// ---------------------------------------------------------------------------
// Interpreter
// ---------------------------------------------------------------------------

pub struct Regs<'dr, D: Driver<'dr, F = Fp>> {
    pub e: Vec<Element<'dr, D>>,
    pub b: Vec<Boolean<'dr, D>>,
    pub p: Vec<Point<'dr, D, EpAffine>>,
    pub s: Vec<Endoscalar<'dr, D>>,
    pub o: Vec<Own<'dr, D, u8>>,
    pub h: Option<Sponge<'dr, D, Perm>>,
    /// The wires of inputs, in program order.
    pub pins: Vec<D::Wire>,
    /// The operation being run.
    pub at: usize,
}

impl<'dr, D: Driver<'dr, F = Fp>> Default for Regs<'dr, D> {
    fn default() -> Self {
        Regs { e: vec![Element::one()], b: vec![], p: vec![], s: vec![], o: vec![], h: None, pins: vec![], at: 0 }
    }
}

/// Moves a gadget onto freshly allocated wires carrying the given values.
struct Rehome<'a, 'dr, D: Driver<'dr, F = Fp>> {
    dr: &'a mut D,
    vals: Vec<DriverValue<D, Fp>>,
    bump: Option<(usize, Fp)>,
    next: usize,
    wires: Vec<D::Wire>,
    _m: PhantomData<&'dr ()>,
}

impl<'dr, D: Driver<'dr, F = Fp>> WireMap<Fp> for Rehome<'_, 'dr, D> {
    type Src = D;
    type Dst = D;
    fn convert_wire(&mut self, _: &<D as DriverTypes>::ImplWire) -> Result<<D as DriverTypes>::ImplWire> {
        let k = self.next;
        self.next += 1;
        let b = match self.bump {
            Some((i, b)) if i == k => b,
            _ => Fp::ZERO,
        };
        let v = &self.vals[k];
        let w = self.dr.alloc(|| Ok(Coeff::Arbitrary(*v.snag() + b)))?;
        self.wires.push(w.clone());
        Ok(w)
    }
}

fn rehome<'dr, D: Driver<'dr, F = Fp>, X: Gadget<'dr, D>>(
    dr: &mut D,
    x: &X,
    vals: Vec<DriverValue<D, Fp>>,
    bump: Option<(usize, Fp)>,
    pins: &mut Vec<D::Wire>,
) -> Result<X> {
    let n = vals.len();
    let mut m = Rehome { dr, vals, bump, next: 0, wires: vec![], _m: PhantomData };
    let y = x.map(&mut m)?;
    if m.next != n {
        return Err(Error::Initialization(format!("map visited {} wires of {n}", m.next).into()));
    }
    pins.extend(m.wires);
    Ok(y)
}

fn written<'dr, D: Driver<'dr, F = Fp>, X: Gadget<'dr, D>>(dr: &mut D, x: &X) -> Result<Vec<Element<'dr, D>>>
where
    X::Kind: Write<Fp>,
{
    let mut v: Vec<Element<'dr, D>> = vec![];
    x.write(dr, &mut v)?;
    Ok(v)
}

/// Elements in each shape of composite.
pub const SHAPES: [usize; 7] = [3, 2, 1, 4, 4, 5, 5];

/// A copy of `x`, by wires, held equal to `y` and written out.
fn alike<'dr, D: Driver<'dr, F = Fp>, X: Gadget<'dr, D>>(
    dr: &mut D,
    x: X,
    y: X,
    n: usize,
) -> Result<Vec<Element<'dr, D>>>
where
    X::Kind: Write<Fp>,
{
    let z = CloneWires::<D, D>::remap(&x)?;
    if z.num_wires()? != n {
        return Err(Error::Initialization(format!("num_wires is {}", z.num_wires()?).into()));
    }
    z.enforce_equal(dr, &y)?;
    written(dr, &z)
}

fn vals<'dr, D: Driver<'dr, F = Fp>>(v: &[Element<'dr, D>]) -> Vec<DriverValue<D, Fp>> {
    v.iter().map(|e| e.value().map(|x| *x)).collect()
}

/// A coefficient; larger choices are sums and products of two.
pub fn coeff(k: u8, v: Fp) -> Coeff<Fp> {
    let one = |k: u8, v: Fp| match k % 6 {
        0 => Coeff::Zero,
        1 => Coeff::One,
        2 => Coeff::Two,
        3 => Coeff::NegativeOne,
        4 => Coeff::Arbitrary(v),
        _ => Coeff::NegativeArbitrary(v),
    };
    let (x, y) = (one(k, v), one(k / 6, v + Fp::from(3)));
    match k / 36 % 4 {
        0 | 1 => x,
        2 => x + y,
        _ => x * y,
    }
}

pub fn coeff_val(k: u8, v: Fp) -> Fp {
    let one = |k: u8, v: Fp| match k % 6 {
        0 => Fp::ZERO,
        1 => Fp::ONE,
        2 => Fp::from(2),
        3 => -Fp::ONE,
        4 => v,
        _ => -v,
    };
    let (x, y) = (one(k, v), one(k / 6, v + Fp::from(3)));
    match k / 36 % 4 {
        0 | 1 => x,
        2 => x + y,
        _ => x * y,
    }
}

pub fn point(k: u64, neg: bool) -> EpAffine {
    let g = EpAffine::generator().to_curve();
    let mut p = g * Fq::from(k % (1 << 20) + 1);
    if k >> 40 != 0 {
        p = g * Fq::from(k | 1);
    }
    if neg {
        p = -p;
    }
    p.to_affine()
}

/// Whether the operation finds the registers it needs; otherwise it does
/// nothing, in every interpretation.
pub struct Sizes {
    pub e: usize,
    pub b: usize,
    pub p: usize,
    pub s: usize,
    pub o: usize,
    pub h: bool,
}

impl Sizes {
    pub fn ready(&self, g: &G) -> bool {
        match g {
            G::Not(_) | G::And(..) | G::Sel(..) | G::CondEq(..) | G::ToElem(_) | G::Pack(..) | G::EnfEqB(..)
            | G::Demote(_) | G::HopB(..) | G::Own(..) | G::Wired(..) => self.b > 0,
            G::PEndo(_) | G::PNeg(_) | G::PDbl(_) | G::PAdd(..) | G::PAddChecked(..) | G::PDblAdd(..)
            | G::PCoords(_) | G::EnfEqP(..) | G::HopP(..) => self.p > 0,
            G::PCondEndo(..) | G::PCondNeg(..) => self.p > 0 && self.b > 0,
            G::Bits(..) | G::Lift(_) | G::EsEq(..) => self.s > 0,
            G::GScale(..) => self.s > 0 && self.p > 0,
            G::AbsorbPt(_) => self.h && self.p > 0,
            G::Absorb(_) | G::Squeeze | G::SaveResume(_) => self.h,
            G::OwnRead(..) | G::OwnEq(..) | G::OwnHop(..) => self.o > 0,
            G::OwnAbsorb(_) => self.h && self.o > 0,
            _ => true,
        }
    }
}

fn at<T>(v: &[T], i: u8) -> &T {
    &v[i as usize % v.len()]
}

/// Runs the program up to `stop`.
pub fn interp<'dr, D: Driver<'dr, F = Fp>>(
    dr: &mut D,
    prog: &[G],
    env: &Env,
    r: &mut Regs<'dr, D>,
) -> Result<()> {
    for (i, op) in prog.iter().enumerate() {
        r.at = i;
        let sizes = Sizes { e: r.e.len(), b: r.b.len(), p: r.p.len(), s: r.s.len(), o: r.o.len(), h: r.h.is_some() };
        if sizes.ready(op) {
            step(dr, op, env, i as u64, r)?;
        }
    }
    r.at = prog.len();
    Ok(())
}

fn step<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, op: &G, env: &Env, site: u64, r: &mut Regs<'dr, D>) -> Result<()> {
    match op {
        G::In(v) => {
            let v = v.f();
            let v = D::try_just(|| {
                env.hit(site)?;
                Ok(v)
            })?;
            let x = Element::alloc(dr, v)?;
            r.pins.push(x.wire().clone());
            r.e.push(x);
        }
        G::InSq(v) => {
            let v = v.f();
            let v = D::try_just(|| {
                env.hit(site)?;
                Ok(v)
            })?;
            let (x, y) = Element::alloc_square(dr, v)?;
            r.pins.push(x.wire().clone());
            r.e.push(x);
            r.e.push(y);
        }
        G::Bit(v) => {
            let v = D::try_just(|| {
                env.hit(site)?;
                Ok(*v)
            })?;
            let x = Boolean::alloc(dr, v)?;
            r.pins.push(x.wire().clone());
            r.b.push(x);
        }
        G::Pt { k, neg } => {
            let v = D::try_just(|| {
                env.hit(site)?;
                Ok(point(*k, *neg))
            })?;
            let x = Point::alloc(dr, v)?;
            for c in written(dr, &x)? {
                r.pins.push(c.wire().clone());
            }
            r.p.push(x);
        }
        G::Endo(lo, hi) => {
            let v = D::try_just(|| {
                env.hit(site)?;
                Ok(endo_of(*lo, *hi))
            })?;
            let x = Endoscalar::alloc(dr, v)?;
            for b in x.bits() {
                r.pins.push(b.wire().clone());
            }
            r.s.push(x);
        }
        G::Zero => r.e.push(Element::zero(dr)),
        G::Const(v) => r.e.push(Element::constant(dr, v.f())),
        G::Add(a, b) => {
            let x = at(&r.e, *a).add(dr, at(&r.e, *b));
            r.e.push(x)
        }
        G::Sub(a, b) => {
            let x = at(&r.e, *a).sub(dr, at(&r.e, *b));
            r.e.push(x)
        }
        G::Mul(a, b) => {
            let x = at(&r.e, *a).mul(dr, at(&r.e, *b))?;
            r.e.push(x)
        }
        G::Sq(a) => {
            let x = at(&r.e, *a).square(dr)?;
            r.e.push(x)
        }
        G::Neg(a) => {
            let x = at(&r.e, *a).negate(dr);
            r.e.push(x)
        }
        G::Dbl(a) => {
            let x = at(&r.e, *a).double(dr);
            r.e.push(x)
        }
        G::Scale(a, k, v) => {
            let x = at(&r.e, *a).scale(dr, coeff(*k, v.f()));
            r.e.push(x)
        }
        G::AddCoeff(a, b, k, v) => {
            let x = at(&r.e, *a).add_coeff(dr, at(&r.e, *b), coeff(*k, v.f()));
            r.e.push(x)
        }
        G::Inv(a) => {
            let x = at(&r.e, *a).invert(dr)?;
            r.e.push(x)
        }
        G::InvWith(a, good) => {
            let x = at(&r.e, *a).clone();
            let v = x.value().map(|x| if *good { x.invert().unwrap_or(Fp::ZERO) } else { *x + Fp::from(5) });
            let x = x.invert_with(dr, v)?;
            r.e.push(x)
        }
        G::Div(a, b) => {
            let x = at(&r.e, *a).div_nonzero(dr, at(&r.e, *b))?;
            r.e.push(x)
        }
        G::IsZero(a) => {
            let x = at(&r.e, *a).is_zero(dr)?;
            r.b.push(x)
        }
        G::IsEq(a, b) => {
            let x = at(&r.e, *a).is_equal(dr, at(&r.e, *b))?;
            r.b.push(x)
        }
        G::Fold(v, s) => {
            let xs: Vec<_> = v.iter().map(|i| at(&r.e, *i).clone()).collect();
            let x = Element::fold(dr, xs.iter(), at(&r.e, *s))?;
            r.e.push(x)
        }
        G::Sum(v) => {
            let xs: Vec<_> = v.iter().map(|i| at(&r.e, *i).clone()).collect();
            let x = Element::sum(dr, xs);
            r.e.push(x)
        }
        G::Lin(t, gain, pin) => {
            let ws: Vec<D::Wire> = r.e.iter().map(|e| e.wire().clone()).collect();
            let val = D::try_just(|| {
                let vs: Vec<Fp> = r.e.iter().map(|e| *e.value().take()).collect();
                Ok(combined(&vs, t, *gain))
            })?;
            let w = dr.add(|lc| lincomb(lc, &ws, t, *gain));
            let x: Element<'dr, D> = Element::promote(w, val);
            if *pin {
                let y = Element::alloc(dr, x.value().map(|v| *v))?;
                dr.enforce_zero(|lc| lincomb(lc.sub(y.wire()), &ws, t, *gain))?;
                r.e.push(y);
            }
            r.e.push(x)
        }
        G::Multiadd(v) => {
            let xs: Vec<_> = v.iter().map(|(i, _)| at(&r.e, *i).clone()).collect();
            let cs: Vec<_> = v.iter().map(|(_, c)| c.f()).collect();
            let x = multiadd(dr, &xs, &cs);
            r.e.push(x)
        }
        G::EnfZero(a) => at(&r.e, *a).enforce_zero(dr)?,
        G::EnfEq(a, b) => at(&r.e, *a).enforce_equal(dr, at(&r.e, *b))?,
        G::EnfRoot(a, k) => at(&r.e, *a).enforce_root_of_unity(dr, *k as u32 % 33)?,
        G::EnfSelf(a) => {
            let x = at(&r.e, *a).clone();
            let y = x.negate(dr);
            dr.enforce_zero(|lc| lc.gain(Coeff::Two).add(x.wire()).extend([(y.wire().clone(), Coeff::One)]))?;
        }
        G::Not(a) => {
            let x = at(&r.b, *a).not(dr);
            r.b.push(x)
        }
        G::And(a, b) => {
            let x = at(&r.b, *a).and(dr, at(&r.b, *b))?;
            r.b.push(x)
        }
        G::Sel(c, a, b) => {
            let x = at(&r.b, *c).conditional_select(dr, at(&r.e, *a), at(&r.e, *b))?;
            r.e.push(x)
        }
        G::CondEq(c, a, b) => at(&r.b, *c).conditional_enforce_equal(dr, at(&r.e, *a), at(&r.e, *b))?,
        G::ToElem(a) => {
            let x = at(&r.b, *a).element();
            r.e.push(x)
        }
        G::Pack(v, n) => {
            let xs: Vec<_> = pack_list(v, *n).into_iter().map(|i| at(&r.b, i).clone()).collect();
            let x = multipack(dr, &xs)?;
            r.e.extend(x)
        }
        G::EnfEqB(a, b) => at(&r.b, *a).enforce_equal(dr, at(&r.b, *b))?,
        G::Demote(a) => {
            let x = at(&r.b, *a);
            let d = x.demote()?;
            let x = d.clone().promote(x.value());
            r.b.push(x)
        }
        G::PConst(k) => {
            let x = Point::constant(dr, point(*k, false))?;
            r.p.push(x)
        }
        G::PEndo(a) => {
            let x = at(&r.p, *a).endo(dr);
            r.p.push(x)
        }
        G::PNeg(a) => {
            let x = at(&r.p, *a).negate(dr);
            r.p.push(x)
        }
        G::PCondEndo(a, c) => {
            let x = at(&r.p, *a).conditional_endo(dr, at(&r.b, *c))?;
            r.p.push(x)
        }
        G::PCondNeg(a, c) => {
            let x = at(&r.p, *a).conditional_negate(dr, at(&r.b, *c))?;
            r.p.push(x)
        }
        G::PDbl(a) => {
            let x = at(&r.p, *a).double(dr)?;
            r.p.push(x)
        }
        G::PAdd(a, b) => {
            let x = at(&r.p, *a).add_incomplete(dr, at(&r.p, *b), None)?;
            r.p.push(x)
        }
        G::PAddChecked(a, b, c) => {
            let mut acc = Element::one();
            let x = at(&r.p, *a).add_incomplete(dr, at(&r.p, *b), Some(&mut acc))?;
            let y = x.add_incomplete(dr, at(&r.p, *c), Some(&mut acc))?;
            acc.invert(dr)?;
            r.p.push(x);
            r.p.push(y)
        }
        G::PDblAdd(a, b) => {
            let x = at(&r.p, *a).double_and_add_incomplete(dr, at(&r.p, *b))?;
            r.p.push(x)
        }
        G::PCoords(a) => {
            let x = at(&r.p, *a).clone();
            let v = written(dr, &x)?;
            r.e.extend(v)
        }
        G::EnfEqP(a, b) => at(&r.p, *a).enforce_equal(dr, at(&r.p, *b))?,
        G::Extract(a) => {
            let x = Endoscalar::extract(dr, at(&r.e, *a).clone())?;
            r.s.push(x)
        }
        G::Bits(a, k) => {
            let x: Vec<_> = at(&r.s, *a).bits().collect();
            r.b.push(x[*k as usize % x.len()].clone())
        }
        G::GScale(a, b) => {
            let x = at(&r.s, *a).group_scale(dr, at(&r.p, *b))?;
            r.p.push(x)
        }
        G::Lift(a) => {
            let x = at(&r.s, *a).lift(dr)?;
            r.e.push(x)
        }
        G::EsEq(a, b) => {
            let x = CloneWires::<D, D>::remap(at(&r.s, *a))?;
            if x.num_wires()? != Uendo::BITS as usize {
                return Err(Error::Initialization(format!("num_wires is {}", x.num_wires()?).into()));
            }
            x.enforce_equal(dr, at(&r.s, *b))?;
            r.s.push(x)
        }
        G::Fresh => r.h = Some(Sponge::new(dr, perm())),
        G::Absorb(a) => {
            let x = at(&r.e, *a).clone();
            r.h.as_mut().unwrap().absorb(dr, &x)?
        }
        G::AbsorbPt(a) => {
            let x = at(&r.p, *a).clone();
            x.write(dr, r.h.as_mut().unwrap())?
        }
        G::Squeeze => {
            let x = r.h.as_mut().unwrap().squeeze(dr)?;
            r.e.push(x)
        }
        G::SaveResume(hop) => {
            let h = r.h.take().unwrap();
            let st = h.save_state(dr).map_err(|e| Error::Initialization(Box::new(e)))?;
            let st = if *hop {
                let v = written(dr, &st)?;
                let y: SpongeState<'dr, D, Perm> = rehome(dr, &st, vals(&v), None, &mut vec![])?;
                y.enforce_consistent(dr)?;
                st.enforce_equal(dr, &y)?;
                SpongeState::from_elements(y.into_elements())
            } else {
                st
            };
            r.h = Some(Sponge::resume(st, perm()));
        }
        G::Own(a, b, k) => {
            let e = |j: u8| at(&r.e, a.wrapping_add(k.wrapping_mul(j))).clone();
            let b = |j: u8| at(&r.b, b.wrapping_add(k.wrapping_mul(j))).clone();
            let x = Own {
                a: e(0),
                flag: b(0),
                inner: Inner { e: e(1), f: b(1) },
                fixed: [b(2), b(3)].into_iter().collect_fixed()?,
                arr: [b(6), b(7)],
                pair: (b(4), b(8)),
                boxed: Box::new(Inner { e: e(5), f: b(5) }),
                last: e(6),
                _t: PhantomData,
            };
            if x.num_wires()? != OWN_LEN {
                return Err(Error::Initialization(format!("num_wires is {}", x.num_wires()?).into()));
            }
            r.o.push(x)
        }
        G::OwnRead(a, k) => {
            let x = at(&r.o, *a).clone();
            let v = written(dr, &x)?;
            let mut n = 0usize;
            x.write(dr, &mut n)?;
            if v.len() != OWN_LEN || n != OWN_LEN {
                return Err(Error::Initialization(format!("wrote {} elements", v.len()).into()));
            }
            r.e.push(at(&v, *k).clone());
        }
        G::OwnEq(a, b) => at(&r.o, *a).enforce_equal(dr, at(&r.o, *b))?,
        G::OwnHop(a, bump) => {
            let x = at(&r.o, *a).clone();
            let v = written(dr, &x)?;
            let bump = bump.map(|(k, v)| (k as usize % OWN_LEN, v.f()));
            let y = rehome(dr, &x, vals(&v), bump, &mut r.pins)?;
            y.enforce_consistent(dr)?;
            if let Some((k, _)) = bump {
                // A boolean is already inconsistent; an element merely differs.
                if !own_bool(k) {
                    y.enforce_equal(dr, &x)?;
                }
            }
            r.o.push(y);
        }
        G::OwnAbsorb(a) => {
            let x = at(&r.o, *a).clone();
            x.write(dr, r.h.as_mut().unwrap())?
        }
        G::Wired(a, b, k, eq) => {
            let e = |j: u8| at(&r.e, a.wrapping_add(k.wrapping_mul(j))).clone();
            let f = at(&r.b, *b).clone();
            let mk = |x: &Element<'dr, D>, y: &Element<'dr, D>, z: Element<'dr, D>| -> Result<Wires<'dr, D>> {
                Ok(Wires {
                    w: x.wire().clone(),
                    v: x.value().map(|v| *v),
                    g: Inner { e: e(2), f: f.clone() },
                    w2: y.wire().clone(),
                    v2: y.value().map(|v| *v),
                    fv: [z, e(4)].into_iter().collect_fixed()?,
                })
            };
            let x = mk(&e(0), &e(1), e(3))?;
            let y = CloneWires::<D, D>::remap(&x)?;
            if y.num_wires()? != 6 {
                return Err(Error::Initialization(format!("num_wires is {}", y.num_wires()?).into()));
            }
            if *eq {
                let z = mk(&e(0), &e(5), e(6))?;
                y.enforce_equal(dr, &z)?;
            } else {
                y.enforce_equal(dr, &x)?;
            }
            r.e.push(Element::promote(y.w, y.v));
            r.e.push(Element::promote(y.w2, y.v2));
            r.e.push(y.fv[0].clone());
            r.b.push(y.g.f.clone());
        }
        G::Alike(k, p, q) => {
            let k = *k as usize % SHAPES.len();
            let (n, e) = (SHAPES[k], &r.e);
            let x = |i: usize| at(e, p[i]).clone();
            let y = |i: usize| at(e, q[i]).clone();
            let v = match k {
                0 => alike(dr, [x(0), x(1), x(2)], [y(0), y(1), y(2)], n)?,
                1 => alike(dr, (x(0), x(1)), (y(0), y(1)), n)?,
                2 => alike(dr, Box::new(x(0)), Box::new(y(0)), n)?,
                3 => {
                    let f = |g: &dyn Fn(usize) -> Element<'dr, D>| -> Result<FixedVec<_, ConstLen<4>>> {
                        Ok((0..4).map(|i| g(i)).collect_fixed()?)
                    };
                    alike(dr, f(&x)?, f(&y)?, n)?
                }
                4 => alike(dr, ([x(0), x(1)], (x(2), x(3))), ([y(0), y(1)], (y(2), y(3))), n)?,
                5 => alike(
                    dr,
                    Box::new(((x(0), x(1)), [x(2), x(3), x(4)])),
                    Box::new(((y(0), y(1)), [y(2), y(3), y(4)])),
                    n,
                )?,
                _ => {
                    let f = |g: &dyn Fn(usize) -> Element<'dr, D>| -> Result<FixedVec<_, ConstLen<2>>> {
                        Ok([(g(0), g(1)), (g(2), g(3))].into_iter().collect_fixed()?)
                    };
                    alike(dr, (f(&x)?, x(4)), (f(&y)?, y(4)), n)?
                }
            };
            r.e.push(v[p[0] as usize % n].clone());
        }
        G::HopB(a, bump) => {
            let x = at(&r.b, *a).clone();
            let v = written(dr, &x)?;
            let y = rehome(dr, &x, vals(&v), bump.map(|v| (0, v.f())), &mut r.pins)?;
            y.enforce_consistent(dr)?;
            r.b.push(y);
        }
        G::HopP(a, bump) => {
            let x = at(&r.p, *a).clone();
            let v = written(dr, &x)?;
            let y = rehome(dr, &x, vals(&v), bump.map(|(k, v)| (k as usize % 2, v.f())), &mut r.pins)?;
            y.enforce_consistent(dr)?;
            r.p.push(y);
        }
        G::Mix(a, b, c, k) => {
            let es: Vec<_> = (0..12u8).map(|j| at(&r.e, [*a, *b, *c][j as usize % 3].wrapping_add(j / 3)).clone()).collect();
            let v = mix::<D>(&es, *k)?;
            let x = Element::alloc(dr, v)?;
            // The same quantity by wires.
            let y = mix_wires(dr, &es, *k)?;
            x.enforce_equal(dr, &y)?;
            r.e.push(x);
        }
    }
    Ok(())
}

/// Pushes values through the witness-plumbing combinators.
fn mix<'dr, D: Driver<'dr, F = Fp>>(es: &[Element<'dr, D>], k: u8) -> Result<DriverValue<D, Fp>> {
    let v = |i: usize| es[i % es.len()].value().map(|x| *x);
    Ok(match k % 7 {
        0 => {
            let t = D::just(|| (*v(0).snag(), *v(1).snag()));
            let (x, y) = t.cast();
            let z = x.and_then(|x| y.as_ref().map(|y| x + *y));
            z.map(|z| z + Fp::ONE)
        }
        1 => {
            let t = D::just(|| (*v(0).snag(), *v(1).snag(), *v(2).snag(), 7u64));
            let (x, mut y, z, w) = t.cast();
            y.as_mut().map(|y| *y *= *z.snag());
            let w: DriverValue<D, Fp> = Maybe::<u64>::into(w);
            D::just(|| *x.snag() + *y.snag() + *w.snag())
        }
        2 => {
            let t = D::just(|| core::array::from_fn::<Fp, 5, _>(|i| *v(i).snag()));
            let [p, q, r, s, t] = t.cast();
            D::just(|| *p.snag() - *q.snag() + r.snag().double() - s.snag().double() + *t.snag() * Fp::from(5))
        }
        3 => {
            let t = D::just(|| {
                let w: Vec<Fp> = (0..12).map(|i| *v(i).snag()).collect();
                (w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11])
            });
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) = t.cast();
            D::just(|| {
                [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11]
                    .iter()
                    .fold(Fp::ZERO, |acc, x| acc * Fp::from(3) + *x.snag())
            })
        }
        4 => D::try_just(|| {
            let x: Result<Fp> = Ok(*v(0).snag());
            Ok(x? * *v(1).snag())
        })?,
        5 => {
            let x = v(0);
            let y = Maybe::<Fp>::clone(&x);
            let z = y.map(|y| y.double());
            x.and_then(|x| z.map(|z| x + z))
        }
        _ => {
            let t = D::just(|| ((*v(0).snag(), *v(1).snag()), *v(2).snag()));
            let (p, z) = t.cast();
            let (x, y) = p.cast();
            D::just(|| *x.snag() - *y.snag() - *z.snag())
        }
    })
}

fn mix_model(v: &[Fp], k: u8) -> Fp {
    match k % 7 {
        0 => v[0] + v[1] + Fp::ONE,
        1 => v[0] + v[1] * v[2] + Fp::from(7),
        2 => v[0] - v[1] + v[2].double() - v[3].double() + v[4] * Fp::from(5),
        3 => v.iter().fold(Fp::ZERO, |a, x| a * Fp::from(3) + x),
        4 => v[0] * v[1],
        5 => v[0] * Fp::from(3),
        _ => v[0] - v[1] - v[2],
    }
}

fn mix_wires<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, v: &[Element<'dr, D>], k: u8) -> Result<Element<'dr, D>> {
    Ok(match k % 7 {
        0 => {
            let t = v[0].add(dr, &v[1]);
            t.add(dr, &Element::one())
        }
        1 => {
            let t = v[1].mul(dr, &v[2])?;
            let t = t.add(dr, &v[0]);
            t.add_coeff(dr, &Element::one(), Coeff::Arbitrary(Fp::from(7)))
        }
        2 => {
            let w = dr.add(|lc| {
                lc.add(v[0].wire())
                    .sub(v[1].wire())
                    .add_term(v[4].wire(), Coeff::Arbitrary(Fp::from(5)))
                    .gain(Coeff::Two)
                    .add(v[2].wire())
                    .sub(v[3].wire())
            });
            Element::promote(w, mix::<D>(v, 2)?)
        }
        3 => {
            let w = dr.add(|mut lc| {
                for x in v.iter().rev() {
                    lc = lc.add(x.wire()).gain(Coeff::Arbitrary(Fp::from(3)));
                }
                lc
            });
            Element::promote(w, mix::<D>(v, 3)?)
        }
        4 => v[0].mul(dr, &v[1])?,
        5 => v[0].scale(dr, Coeff::Arbitrary(Fp::from(3))),
        _ => {
            let t = v[0].sub(dr, &v[1]);
            t.sub(dr, &v[2])
        }
    })
}

pub fn pack_list(v: &[u8], n: u16) -> Vec<u8> {
    if v.is_empty() {
        return vec![];
    }
    (0..n as usize % 300).map(|i| v[(i * i + i / 3) % v.len()]).collect()
}

pub fn endo_of(lo: u64, hi: u64) -> Uendo {
    Uendo::from(lo) | (Uendo::from(hi) << 64usize)
}

// ---------------------------------------------------------------------------
// The model
// ---------------------------------------------------------------------------

/// The sponge, over plain values.
pub struct RefSponge<F: Field = Fp, P: PoseidonPermutation<F> = Perm> {
    p: &'static P,
    pub state: Vec<F>,
    /// Values waiting to be absorbed, or `None` when squeezing.
    pub pending: Option<Vec<F>>,
    pub ready: Vec<F>,
}

impl<F: Field, P: PoseidonPermutation<F>> Clone for RefSponge<F, P> {
    fn clone(&self) -> Self {
        RefSponge { p: self.p, state: self.state.clone(), pending: self.pending.clone(), ready: self.ready.clone() }
    }
}

impl<F: Field, P: PoseidonPermutation<F>> RefSponge<F, P> {
    pub fn new(p: &'static P) -> Self {
        RefSponge { p, state: vec![F::ZERO; P::T], pending: Some(vec![]), ready: vec![] }
    }
    pub fn permute(&mut self) {
        let p = self.p;
        let mds: Vec<Vec<F>> = p.mds_matrix().map(|r| r.to_vec()).collect();
        let half = P::FULL_ROUNDS / 2;
        for (k, rc) in p.round_constants().enumerate() {
            for (x, c) in self.state.iter_mut().zip(rc) {
                *x += c;
            }
            let full = k < half || k >= half + P::PARTIAL_ROUNDS;
            for (j, x) in self.state.iter_mut().enumerate() {
                if full || j == 0 {
                    *x = x.square().square() * *x;
                }
            }
            self.state = mds.iter().map(|r| r.iter().zip(&self.state).map(|(a, b)| *a * b).sum()).collect();
        }
    }
    fn flush(&mut self) {
        for (x, v) in self.state.iter_mut().zip(self.pending.take().unwrap_or_default()) {
            *x += v;
        }
        self.permute();
    }
    pub fn absorb(&mut self, v: F) {
        match &mut self.pending {
            None => {
                self.ready.clear();
                self.pending = Some(vec![v]);
            }
            Some(p) if p.len() < P::RATE => p.push(v),
            Some(_) => {
                self.flush();
                self.pending = Some(vec![v]);
            }
        }
    }
    pub fn squeeze(&mut self) -> Option<F> {
        if let Some(p) = &self.pending {
            if p.is_empty() {
                return None;
            }
            self.flush();
            self.ready = self.state[..P::RATE].to_vec();
        }
        if self.ready.is_empty() {
            self.permute();
            self.ready = self.state[..P::RATE].to_vec();
        }
        Some(self.ready.remove(0))
    }
    /// The durable state, or why there is none: `true` when squeezing.
    pub fn save(&self) -> core::result::Result<Vec<F>, bool> {
        match &self.pending {
            None => Err(true),
            Some(p) if p.is_empty() => Err(false),
            Some(_) => {
                let mut s = self.clone();
                s.flush();
                Ok(s.state)
            }
        }
    }
    pub fn resume(p: &'static P, state: Vec<F>) -> Self {
        let ready = state[..P::RATE].to_vec();
        RefSponge { p, state, pending: None, ready }
    }
}

#[derive(Clone)]
pub struct Model {
    pub e: Vec<Fp>,
    pub b: Vec<bool>,
    pub p: Vec<EpAffine>,
    pub s: Vec<Uendo>,
    pub o: Vec<Vec<Fp>>,
    pub h: Option<RefSponge>,
    pub pins: Vec<Pin>,
    /// First unsatisfied operation.
    pub unsat: Option<usize>,
    /// Operation at which evaluation stops.
    pub stop: Option<(usize, Bad)>,
    /// An extraction with two valid answers happened here.
    pub loose: Option<usize>,
    /// A re-homed gadget carries another legal value than its witness says.
    pub soft: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pin {
    Free(Fp),
    Bit(Fp),
    X(Fp),
    Y(Fp),
}

impl Pin {
    pub fn f(&self) -> Fp {
        match self {
            Pin::Free(f) | Pin::Bit(f) | Pin::X(f) | Pin::Y(f) => *f,
        }
    }
}

pub fn xy(p: &EpAffine) -> (Fp, Fp) {
    let c = p.coordinates().unwrap();
    (*c.x(), *c.y())
}

/// The scalar an endoscalar stands for.
pub fn lift_model<F: WithSmallOrderMulGroup<3>>(e: Uendo) -> F {
    let mut acc = F::from(2) * (F::ZETA + F::ONE);
    for i in 0..(Uendo::BITS as usize / 2) {
        let neg = endo_bit(e, 2 * i);
        let rot = endo_bit(e, 2 * i + 1);
        let mut t = if rot { F::ZETA } else { F::ONE };
        if neg {
            t = -t;
        }
        acc = acc + acc + t;
    }
    acc
}

pub fn endo_bit(e: Uendo, i: usize) -> bool {
    (e >> i) & Uendo::from(1u64) == Uendo::from(1u64)
}

fn fb(b: bool) -> Fp {
    Fp::from(b as u64)
}

fn is_bit(x: Fp) -> bool {
    x == Fp::ZERO || x == Fp::ONE
}

pub fn on_curve(x: Fp, y: Fp) -> bool {
    y.square() == x.square() * x + EpAffine::b()
}

impl Model {
    pub fn new() -> Self {
        Model {
            e: vec![Fp::ONE],
            b: vec![],
            p: vec![],
            s: vec![],
            o: vec![],
            h: None,
            pins: vec![],
            unsat: None,
            stop: None,
            loose: None,
            soft: None,
        }
    }
    pub fn run(prog: &[G]) -> Model {
        let mut m = Model::new();
        for (i, op) in prog.iter().enumerate() {
            let z = Sizes { e: m.e.len(), b: m.b.len(), p: m.p.len(), s: m.s.len(), o: m.o.len(), h: m.h.is_some() };
            if z.ready(op) {
                match m.step(i, op) {
                    Ok(()) => {}
                    Err(Bad::Unsat) => m.unsat = m.unsat.or(Some(i)),
                    Err(b) => {
                        m.stop = Some((i, b));
                        break;
                    }
                }
            }
        }
        m
    }
    /// The first operation that is not plainly satisfied.
    pub fn bad(&self) -> Option<usize> {
        match (self.unsat, self.stop) {
            (Some(a), Some((b, _))) => Some(a.min(b)),
            (Some(a), None) => Some(a),
            (None, s) => s.map(|s| s.0),
        }
    }
    /// Every quantity the program computed, named.
    pub fn outputs(&self) -> Vec<Fp> {
        let mut v = self.e.clone();
        v.extend(self.b.iter().map(|b| fb(*b)));
        for p in &self.p {
            let (x, y) = xy(p);
            v.extend([x, y]);
        }
        for s in &self.s {
            v.extend((0..Uendo::BITS as usize).map(|i| fb(endo_bit(*s, i))));
        }
        for o in &self.o {
            v.extend(o);
        }
        v
    }
    fn add(a: &EpAffine, b: &EpAffine) -> core::result::Result<EpAffine, Bad> {
        if xy(a).0 == xy(b).0 {
            return Err(if a == b { Bad::Open } else { Bad::Invalid });
        }
        Ok((a.to_curve() + b.to_curve()).to_affine())
    }
    fn step(&mut self, i: usize, op: &G) -> core::result::Result<(), Bad> {
        let need = |c: bool| if c { Ok(()) } else { Err(Bad::Unsat) };
        let inv = |x: Fp| Option::<Fp>::from(x.invert());
        match op {
            G::In(v) => {
                self.pins.push(Pin::Free(v.f()));
                self.e.push(v.f())
            }
            G::InSq(v) => {
                self.pins.push(Pin::Free(v.f()));
                self.e.extend([v.f(), v.f().square()])
            }
            G::Bit(b) => {
                self.pins.push(Pin::Bit(fb(*b)));
                self.b.push(*b)
            }
            G::Pt { k, neg } => {
                let p = point(*k, *neg);
                let (x, y) = xy(&p);
                self.pins.extend([Pin::X(x), Pin::Y(y)]);
                self.p.push(p)
            }
            G::Endo(lo, hi) => {
                let e = endo_of(*lo, *hi);
                self.pins.extend((0..Uendo::BITS as usize).map(|i| Pin::Bit(fb(endo_bit(e, i)))));
                self.s.push(e)
            }
            G::Zero => self.e.push(Fp::ZERO),
            G::Const(v) => self.e.push(v.f()),
            G::Add(a, b) => self.e.push(*at(&self.e, *a) + at(&self.e, *b)),
            G::Sub(a, b) => self.e.push(*at(&self.e, *a) - at(&self.e, *b)),
            G::Mul(a, b) => self.e.push(*at(&self.e, *a) * at(&self.e, *b)),
            G::Sq(a) => self.e.push(at(&self.e, *a).square()),
            G::Neg(a) => self.e.push(-*at(&self.e, *a)),
            G::Dbl(a) => self.e.push(at(&self.e, *a).double()),
            G::Scale(a, k, v) => self.e.push(*at(&self.e, *a) * coeff_val(*k, v.f())),
            G::AddCoeff(a, b, k, v) => self.e.push(*at(&self.e, *a) + *at(&self.e, *b) * coeff_val(*k, v.f())),
            G::Inv(a) => self.e.push(inv(*at(&self.e, *a)).ok_or(Bad::Invalid)?),
            G::InvWith(a, good) => {
                let x = *at(&self.e, *a);
                let w = if *good { inv(x).unwrap_or(Fp::ZERO) } else { x + Fp::from(5) };
                self.e.push(w);
                return need(x * w == Fp::ONE);
            }
            G::Div(a, b) => {
                let (x, y) = (*at(&self.e, *a), *at(&self.e, *b));
                match inv(y) {
                    Some(y) => self.e.push(x * y),
                    None if x == Fp::ZERO => return Err(Bad::Open),
                    None => return Err(Bad::Invalid),
                }
            }
            G::IsZero(a) => self.b.push(*at(&self.e, *a) == Fp::ZERO),
            G::IsEq(a, b) => self.b.push(at(&self.e, *a) == at(&self.e, *b)),
            G::Fold(v, s) => {
                let s = *at(&self.e, *s);
                let n = v.len();
                let mut t = Fp::ZERO;
                for (j, i) in v.iter().enumerate() {
                    t += *at(&self.e, *i) * s.pow_vartime([(n - 1 - j) as u64]);
                }
                self.e.push(t)
            }
            G::Sum(v) => {
                let t = v.iter().map(|i| *at(&self.e, *i)).sum();
                self.e.push(t)
            }
            G::Lin(t, gain, pin) => {
                let x = combined(&self.e, t, *gain);
                self.e.push(x);
                if *pin {
                    self.e.push(x);
                }
            }
            G::Multiadd(v) => {
                let t = v.iter().map(|(i, c)| *at(&self.e, *i) * c.f()).sum();
                self.e.push(t)
            }
            G::EnfZero(a) => return need(*at(&self.e, *a) == Fp::ZERO),
            G::EnfEq(a, b) => return need(at(&self.e, *a) == at(&self.e, *b)),
            G::EnfRoot(a, k) => {
                let mut x = *at(&self.e, *a);
                for _ in 0..*k as u32 % 33 {
                    x = x * x;
                }
                return need(x == Fp::ONE);
            }
            G::EnfSelf(_) => {}
            G::Not(a) => self.b.push(!*at(&self.b, *a)),
            G::And(a, b) => self.b.push(*at(&self.b, *a) && *at(&self.b, *b)),
            G::Sel(c, a, b) => {
                let x = if *at(&self.b, *c) { *at(&self.e, *b) } else { *at(&self.e, *a) };
                self.e.push(x)
            }
            G::CondEq(c, a, b) => return need(!*at(&self.b, *c) || at(&self.e, *a) == at(&self.e, *b)),
            G::ToElem(a) => self.e.push(fb(*at(&self.b, *a))),
            G::Pack(v, n) => {
                let bits: Vec<bool> = pack_list(v, *n).iter().map(|i| *at(&self.b, *i)).collect();
                for c in bits.chunks(Fp::CAPACITY as usize) {
                    let mut t = Fp::ZERO;
                    for b in c.iter().rev() {
                        t = t + t + fb(*b);
                    }
                    self.e.push(t);
                }
            }
            G::EnfEqB(a, b) => return need(at(&self.b, *a) == at(&self.b, *b)),
            G::Demote(a) => self.b.push(*at(&self.b, *a)),
            G::PConst(k) => self.p.push(point(*k, false)),
            G::PEndo(a) => self.p.push(at(&self.p, *a).to_curve().endo().to_affine()),
            G::PNeg(a) => self.p.push(-*at(&self.p, *a)),
            G::PCondEndo(a, c) => {
                let p = *at(&self.p, *a);
                self.p.push(if *at(&self.b, *c) { p.to_curve().endo().to_affine() } else { p })
            }
            G::PCondNeg(a, c) => {
                let p = *at(&self.p, *a);
                self.p.push(if *at(&self.b, *c) { -p } else { p })
            }
            G::PDbl(a) => self.p.push(at(&self.p, *a).to_curve().double().to_affine()),
            G::PAdd(a, b) => {
                let x = Self::add(at(&self.p, *a), at(&self.p, *b))?;
                self.p.push(x)
            }
            G::PAddChecked(a, b, c) => {
                // The accumulator closes every exceptional case.
                let inv = |_| Bad::Invalid;
                let x = Self::add(at(&self.p, *a), at(&self.p, *b)).map_err(inv)?;
                let y = Self::add(&x, at(&self.p, *c)).map_err(inv)?;
                self.p.extend([x, y])
            }
            G::PDblAdd(a, b) => {
                let (q, p) = (*at(&self.p, *a), *at(&self.p, *b));
                let x = Self::add(&q, &p)?;
                let y = Self::add(&x, &q)?;
                self.p.push(y)
            }
            G::PCoords(a) => {
                let (x, y) = xy(at(&self.p, *a));
                self.e.extend([x, y])
            }
            G::EnfEqP(a, b) => return need(at(&self.p, *a) == at(&self.p, *b)),
            G::Extract(a) => {
                let x = *at(&self.e, *a);
                let mut v = Uendo::from(0u64);
                for k in 0..Uendo::BITS as usize {
                    let y = x + Fp::from(k as u64);
                    if y == Fp::ZERO {
                        self.loose = self.loose.or(Some(i));
                    }
                    if y.sqrt().is_some().into() {
                        v |= Uendo::from(1u64) << k;
                    }
                }
                self.s.push(v)
            }
            G::Bits(a, k) => {
                let v = endo_bit(*at(&self.s, *a), *k as usize % Uendo::BITS as usize);
                self.b.push(v)
            }
            G::GScale(a, b) => {
                let k: Fq = lift_model(*at(&self.s, *a));
                self.p.push((at(&self.p, *b).to_curve() * k).to_affine())
            }
            G::Lift(a) => self.e.push(lift_model(*at(&self.s, *a))),
            G::EsEq(a, b) => {
                let (x, y) = (*at(&self.s, *a), *at(&self.s, *b));
                self.s.push(x);
                return need(x == y);
            }
            G::Fresh => self.h = Some(RefSponge::new(perm())),
            G::Absorb(a) => {
                let v = *at(&self.e, *a);
                self.h.as_mut().unwrap().absorb(v)
            }
            G::AbsorbPt(a) => {
                let (x, y) = xy(at(&self.p, *a));
                let h = self.h.as_mut().unwrap();
                h.absorb(x);
                h.absorb(y)
            }
            G::Squeeze => {
                let v = self.h.as_mut().unwrap().squeeze().ok_or(Bad::Misuse)?;
                self.e.push(v)
            }
            G::SaveResume(_) => {
                let s = self.h.as_ref().unwrap().save().map_err(|_| Bad::Misuse)?;
                self.h = Some(RefSponge::resume(perm(), s))
            }
            G::Own(a, b, k) => {
                let e = |j: u8| *at(&self.e, a.wrapping_add(k.wrapping_mul(j)));
                let b = |j: u8| fb(*at(&self.b, b.wrapping_add(k.wrapping_mul(j))));
                let x = vec![
                    e(0),
                    b(0),
                    e(1),
                    b(1),
                    b(2),
                    b(3),
                    b(6),
                    b(7),
                    b(4),
                    b(8),
                    e(5),
                    b(5),
                    e(6),
                ];
                self.o.push(x)
            }
            G::OwnRead(a, k) => {
                let o: &Vec<Fp> = at(&self.o, *a);
                let v = *at(o, *k);
                self.e.push(v)
            }
            G::OwnEq(a, b) => return need(at(&self.o, *a) == at(&self.o, *b)),
            G::OwnHop(a, bump) => {
                // Only the wires move: the values a gadget carries stay with it.
                let kept = at(&self.o, *a).clone();
                let mut x = kept.clone();
                let mut ok = true;
                if let Some((k, v)) = bump {
                    let k = *k as usize % OWN_LEN;
                    x[k] += v.f();
                    ok = v.f() == Fp::ZERO;
                    if !ok && own_bool(k) && is_bit(x[k]) {
                        self.soft = self.soft.or(Some(i));
                    }
                }
                for (k, v) in x.iter().enumerate() {
                    self.pins.push(if own_bool(k) { Pin::Bit(*v) } else { Pin::Free(*v) });
                }
                self.o.push(kept);
                return need(ok);
            }
            G::OwnAbsorb(a) => {
                for v in at(&self.o, *a).clone() {
                    self.h.as_mut().unwrap().absorb(v)
                }
            }
            G::Wired(a, b, k, eq) => {
                let e = |j: u8| *at(&self.e, a.wrapping_add(k.wrapping_mul(j)));
                let f = *at(&self.b, *b);
                let ok = !*eq || (e(1) == e(5) && e(3) == e(6));
                let n = [e(0), e(1), e(3)];
                self.e.extend(n);
                self.b.push(f);
                return need(ok);
            }
            G::Alike(k, p, q) => {
                let n = SHAPES[*k as usize % SHAPES.len()];
                let x: Vec<Fp> = p[..n].iter().map(|i| *at(&self.e, *i)).collect();
                let y: Vec<Fp> = q[..n].iter().map(|i| *at(&self.e, *i)).collect();
                self.e.push(x[p[0] as usize % n]);
                return need(x == y);
            }
            G::HopB(a, bump) => {
                let b = *at(&self.b, *a);
                let d = bump.map(|v| v.f()).unwrap_or(Fp::ZERO);
                self.pins.push(Pin::Bit(fb(b) + d));
                if d != Fp::ZERO && is_bit(fb(b) + d) {
                    self.soft = self.soft.or(Some(i));
                }
                self.b.push(b);
                return need(d == Fp::ZERO);
            }
            G::HopP(a, bump) => {
                let p = *at(&self.p, *a);
                let (mut x, mut y) = xy(&p);
                let mut ok = true;
                if let Some((k, v)) = bump {
                    if k % 2 == 0 { x += v.f() } else { y += v.f() }
                    ok = v.f() == Fp::ZERO;
                }
                self.pins.extend([Pin::X(x), Pin::Y(y)]);
                if !ok && on_curve(x, y) {
                    self.soft = self.soft.or(Some(i));
                }
                self.p.push(p);
                return need(ok);
            }
            G::Mix(a, b, c, k) => {
                let v: Vec<Fp> =
                    (0..12u8).map(|j| *at(&self.e, [*a, *b, *c][j as usize % 3].wrapping_add(j / 3))).collect();
                self.e.push(mix_model(&v, *k))
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------

pub struct Mixture {
    pub len: usize,
    /// Allow operations that may not be satisfiable.
    pub wild: u64,
    /// Allow the expensive operations (extraction, scaling, hashing).
    pub heavy: usize,
}

pub fn gen_prog(rng: &mut Rng, mx: &Mixture) -> Prog {
    let mut v: Prog = vec![];
    let mut heavy = mx.heavy;
    // A flavour biases a program towards one family.
    let flavour = rng.below(7);
    for _ in 0..1 + rng.below(3) {
        v.push(G::In(Val::draw(rng)));
    }
    if rng.chance(3, 4) {
        v.push(G::Bit(rng.chance(1, 2)));
    }
    if flavour == 2 || flavour == 3 || rng.chance(1, 6) {
        v.push(G::Pt { k: draw_pt(rng), neg: rng.chance(1, 3) });
        v.push(G::Pt { k: draw_pt(rng), neg: rng.chance(1, 3) });
    }
    if flavour == 4 {
        v.push(G::Fresh);
    }
    let mut m = Model::run(&v);
    let r = |rng: &mut Rng| rng.next() as u8;
    let mut tries = 0;
    while v.len() < mx.len && tries < 20 * mx.len {
        tries += 1;
        let fam = if rng.chance(1, 2) { flavour } else { rng.below(7) };
        let (a, b, c) = (r(rng), r(rng), r(rng));
        let list = |rng: &mut Rng, n: u64| (0..rng.below(n)).map(|_| rng.next() as u8).collect::<Vec<u8>>();
        let op = match fam {
            0 => match rng.below(18) {
                16 | 17 => {
                    let t = (0..1 + rng.below(4)).map(|_| (rng.next() as u8, rng.below(COEFFS) as u8)).collect();
                    G::Lin(t, rng.below(GAINS) as u8, rng.chance(1, 2))
                }
                0 => G::In(Val::draw(rng)),
                1 => G::InSq(Val::draw(rng)),
                2 => G::Const(Val::draw(rng)),
                3 => G::Add(a, b),
                4 => G::Sub(a, b),
                5 | 6 => G::Mul(a, b),
                7 => G::Sq(a),
                8 => G::Neg(a),
                9 => G::Dbl(a),
                10 => G::Scale(a, b, Val::draw(rng)),
                11 => G::AddCoeff(a, b, c, Val::draw(rng)),
                12 => G::Fold(list(rng, 5), a),
                13 => G::Sum(list(rng, 5)),
                14 => G::Multiadd((0..rng.below(5)).map(|_| (rng.next() as u8, Val::draw(rng))).collect()),
                _ => G::Zero,
            },
            1 => match rng.below(14) {
                0 => G::Bit(rng.chance(1, 2)),
                1 => G::Not(a),
                2 | 3 => G::And(a, b),
                4 | 5 => G::Sel(a, b, c),
                6 => G::CondEq(a, b, c),
                7 => G::ToElem(a),
                8 => G::Pack((0..1 + rng.below(6)).map(|_| rng.next() as u8).collect(), if rng.chance(1, 8) { 250 + rng.below(49) as u16 } else { rng.below(12) as u16 }),
                9 => G::EnfEqB(a, b),
                10 => G::Demote(a),
                11 => G::IsZero(a),
                12 => G::IsEq(a, b),
                _ => G::HopB(a, if rng.chance(1, 3) { Some(Val::draw(rng)) } else { None }),
            },
            2 => match rng.below(14) {
                0 => G::Pt { k: draw_pt(rng), neg: rng.chance(1, 3) },
                1 => G::PConst(draw_pt(rng)),
                2 => G::PEndo(a),
                3 => G::PNeg(a),
                4 => G::PCondEndo(a, b),
                5 => G::PCondNeg(a, b),
                6 => G::PDbl(a),
                7 | 8 => G::PAdd(a, b),
                9 => G::PAddChecked(a, b, c),
                10 => G::PDblAdd(a, b),
                11 => G::PCoords(a),
                12 => G::EnfEqP(a, b),
                _ => G::HopP(a, if rng.chance(1, 3) { Some((r(rng), Val::draw(rng))) } else { None }),
            },
            3 if heavy > 0 => match rng.below(8) {
                0 => G::Endo(rng.next(), rng.next()),
                1 => G::Endo(rng.below(4), 0),
                2 => G::Extract(a),
                3 => G::GScale(a, b),
                4 => G::Lift(a),
                5 => G::EsEq(a, b),
                6 => G::Endo(a as u64 & 3, 0),
                _ => G::Bits(a, b),
            },
            4 if heavy > 0 => match rng.below(12) {
                0 => G::Fresh,
                1..=5 => G::Absorb(a),
                6 => G::AbsorbPt(a),
                7 | 8 => G::Squeeze,
                9 | 10 => G::SaveResume(rng.chance(1, 2)),
                _ => G::OwnAbsorb(a),
            },
            5 => match rng.below(12) {
                9..=11 => {
                    let p = std::array::from_fn(|_| r(rng));
                    let mut q = p;
                    if rng.chance(1, 2) {
                        q[rng.below(5) as usize] = r(rng);
                    }
                    G::Alike(r(rng), p, q)
                }
                0 | 1 => G::Own(a, b, c),
                2 => G::OwnRead(a, b),
                3 => G::OwnEq(a, b),
                4 | 5 => G::OwnHop(a, if rng.chance(1, 3) { Some((r(rng), Val::draw(rng))) } else { None }),
                6 if !m.s.is_empty() && rng.chance(2, 3) => G::EsEq(a, b),
                6 => G::Wired(a, b, c, rng.chance(1, 3)),
                _ => G::Mix(a, b, c, r(rng)),
            },
            _ => match rng.below(10) {
                0 => G::Inv(a),
                1 => G::InvWith(a, rng.chance(4, 5)),
                2 | 3 => G::Div(a, b),
                4 => G::EnfZero(a),
                5 => G::EnfEq(a, b),
                6 => G::EnfRoot(a, if rng.below(2) == 0 { rng.below(5) } else { rng.below(33) } as u8),
                7 => G::IsZero(a),
                8 => G::EnfSelf(a),
                _ => G::CondEq(a, b, c),
            },
        };
        let z = Sizes { e: m.e.len(), b: m.b.len(), p: m.p.len(), s: m.s.len(), o: m.o.len(), h: m.h.is_some() };
        if !z.ready(&op) {
            continue;
        }
        let weight = match op {
            G::Extract(_) | G::GScale(..) | G::Lift(_) | G::Endo(..) => 1,
            G::OwnAbsorb(_) => 2,
            _ => 0,
        };
        if weight > heavy {
            continue;
        }
        let mut n = m.clone();
        let bad = n.step(v.len(), &op);
        if (bad.is_err() || n.loose.is_some()) && rng.below(100) >= mx.wild {
            continue;
        }
        v.push(op);
        m = n;
        heavy -= weight;
        match bad {
            Ok(()) | Err(Bad::Unsat) => {}
            Err(_) => break,
        }
    }
    v
}

fn draw_pt(rng: &mut Rng) -> u64 {
    if rng.chance(1, 3) { rng.below(4) } else { rng.next() | 1 << 41 }
}

/// Single-step shrinks. Removing an operation renumbers registers, so the
/// result is only a candidate.
pub fn shrinks(p: &Prog) -> Vec<Prog> {
    let mut v = vec![];
    for n in [p.len() / 2, p.len().saturating_sub(1)] {
        if n > 0 && n < p.len() {
            v.push(p[..n].to_vec());
        }
    }
    for i in 0..p.len() {
        let mut q = p.clone();
        q.remove(i);
        v.push(q);
    }
    v
}

// ---------------------------------------------------------------------------
// As a circuit
// ---------------------------------------------------------------------------

/// All registers, flattened to elements.
pub fn flatten<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, r: &Regs<'dr, D>) -> Result<Vec<Element<'dr, D>>> {
    let mut v = r.e.clone();
    for b in &r.b {
        v.push(b.element());
    }
    for p in &r.p {
        p.write(dr, &mut v)?;
    }
    for s in &r.s {
        for b in s.bits() {
            v.push(b.element());
        }
    }
    for o in &r.o {
        o.write(dr, &mut v)?;
    }
    Ok(v)
}

pub fn weight(k: usize) -> Fp {
    crate::props::field_of(hash2(hash_str("weight"), k as u64))
}

pub fn combine(v: &[Fp]) -> Fp {
    v.iter().enumerate().map(|(k, x)| *x * weight(k)).sum()
}

#[derive(Clone)]
pub struct GProg {
    pub prog: Arc<Prog>,
    pub env: Arc<Env>,
}

impl Circuit<Fp> for GProg {
    type Instance<'s> = Fp;
    type Witness<'s> = ();
    type Output = Kind![Fp; Element<'_, _>];
    type Aux<'s> = Vec<Fp>;

    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        instance: DriverValue<D, Fp>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, instance)
    }

    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        _: DriverValue<D, ()>,
    ) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, Vec<Fp>>>> {
        let mut r = Regs::default();
        interp(dr, &self.prog, &self.env, &mut r)?;
        let v = flatten(dr, &r)?;
        let c: Vec<Fp> = (0..v.len()).map(weight).collect();
        let out = multiadd(dr, &v, &c);
        let aux = D::just(|| v.iter().map(|e| *e.value().take()).collect());
        Ok(WithAux::new(out, aux))
    }
}
