//! Stages made apart combine into exactly the circuit they are stages of.

use super::c01::{field, poly_hash};
use crate::engine::*;
use crate::raw::*;
use crate::rec::{self, Live};
use ff::Field;
use ragu_arithmetic::{Coeff, Cycle, FixedGenerators};
use ragu_circuits::{
    BondingObject, Circuit, CircuitExt, WithAux,
    polynomials::{Rank, TestRank, sparse},
    staging::{MultiStage, MultiStageCircuit, Stage, StageBuilder, StageExt},
};
use ragu_core::{
    Error, Result,
    drivers::{Driver, DriverValue, LinearExpression},
    gadgets::{Bound, Kind},
    maybe::{Always, Maybe, MaybeKind},
    routines::{Prediction, Routine},
};
use ragu_pasta::{EqAffine, Fp};
use ragu_primitives::{
    Boolean, Element,
    vec::{CollectFixed, ConstLen, FixedVec},
};
use ragu_testing::registry::{Handle, TestRegistry, TestRegistryBuilder};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::Rng;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

type R = TestRank;
const SESSIONS: u64 = 4;

/// What reaches the verifier of one stage.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Delivery {
    /// Sessions whose stage polynomial arrived; `[0]` is the intended one.
    pub sessions: Vec<u8>,
    /// A value changed on the way: (index, by).
    pub edit: Option<(u8, u64)>,
}

/// A coefficient added to an otherwise honest polynomial: gate, wire.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Noise {
    /// 0..2 a stage's polynomial against that stage's mask; 3 the final trace
    /// against the final mask.
    pub mask: u8,
    pub at: Vec<(u8, u8, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    Lin(Vec<(u8, u8)>),
    Enf(Vec<(u8, u8)>),
    /// A routine around a constraint.
    Nest(Vec<(u8, u8)>),
    /// Forbidden: a gate, a constant, a mention of one (in a sum, or in a
    /// constraint), each perhaps inside a routine.
    Bad(u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub chain: u8,
    pub body: RNode,
    /// Per stage: 0 enforced, 1 unenforced, 2 skipped.
    pub modes: [u8; 3],
    pub bond: Vec<BOp>,
    pub values: u64,
    pub rounds: Vec<[Delivery; 3]>,
    pub noise: Vec<Noise>,
    pub commit: bool,
    /// Stage witness computations that fail once: (node, after draws).
    pub fails: Vec<u8>,
}

pub struct C17;

// ---------------------------------------------------------------------------
// Stages
// ---------------------------------------------------------------------------

#[derive(Clone)]
pub struct Wit {
    pub vals: Vec<Fp>,
    /// The element whose computation fails.
    fail: Option<usize>,
}

fn wit_at(w: &Wit, i: usize) -> Result<Fp> {
    simrt::yield_point();
    if w.fail == Some(i) {
        return Err(Error::InvalidWitness("injected-stage-failure".into()));
    }
    Ok(w.vals.get(i).copied().unwrap_or(Fp::ZERO))
}

pub struct St<const V: usize, const W: usize, P>(PhantomData<P>);
pub struct Sb<const V: usize, const W: usize, P>(PhantomData<P>);

macro_rules! stage {
    ($n:ident, $el:ty, |$dr:ident, $v:ident| $alloc:expr) => {
        impl<const V: usize, const W: usize, P> Default for $n<V, W, P> {
            fn default() -> Self {
                $n(PhantomData)
            }
        }
        impl<const V: usize, const W: usize, P: Stage<Fp, R> + Send + Sync> Stage<Fp, R> for $n<V, W, P> {
            type Parent = P;
            type Witness<'s> = Wit;
            type OutputKind = FixedVec<PhantomData<$el>, ConstLen<W>>;
            fn values() -> usize {
                V
            }
            fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
                &self,
                $dr: &mut D,
                w: DriverValue<D, Wit>,
            ) -> Result<Bound<'dr, D, Self::OutputKind>>
            where
                Self: 'dr,
            {
                let mut o = Vec::new();
                for i in 0..W {
                    let $v = D::try_just(|| wit_at(w.snag(), i))?;
                    o.push($alloc?);
                }
                o.into_iter().collect_fixed()
            }
        }
    };
}
stage!(St, Kind![Fp; Element<'_, _>], |dr, v| Element::alloc(dr, v));
stage!(Sb, Kind![Fp; Boolean<'_, _>], |dr, v| Boolean::alloc(dr, v.map(|f| f == Fp::ONE)));

type Pair = FixedVec<PhantomData<Kind![Fp; Element<'_, _>]>, ConstLen<2>>;

/// One chain of stages, its circuit and its bonding circuit.
macro_rules! chain {
    ($m:ident, $a:ty, $b:ty, $c:ty, $bools:expr) => {
        mod $m {
            use super::*;
            pub type A = $a;
            pub type B = $b;
            pub type C = $c;
            pub const BOOLS: [bool; 3] = $bools;

            #[derive(Clone)]
            pub struct Ms {
                pub node: Arc<RNode>,
                pub sc: Arc<Script>,
                pub modes: [u8; 3],
            }
            impl MultiStageCircuit<Fp, R> for Ms {
                type Last = C;
                type Instance<'s> = [Fp; 2];
                type Witness<'s> = [Wit; 3];
                type Output = Pair;
                type Aux<'s> = ();
                fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
                    &self,
                    dr: &mut D,
                    i: DriverValue<D, [Fp; 2]>,
                ) -> Result<Bound<'dr, D, Self::Output>>
                where
                    Self: 'dr,
                {
                    let a = Element::alloc(dr, i.as_ref().map(|v| v[0]))?;
                    let b = Element::alloc(dr, i.as_ref().map(|v| v[1]))?;
                    [a, b].into_iter().collect_fixed()
                }
                fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
                    &self,
                    bld: StageBuilder<'a, 'dr, D, R, (), C>,
                    w: DriverValue<D, [Wit; 3]>,
                ) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>>
                where
                    Self: 'dr,
                {
                    // A skipped stage goes through `skip_stage`.
                    let (ga, bld) = if self.modes[0] == 2 {
                        (None, bld.skip_stage::<A>()?)
                    } else {
                        let (g, b) = bld.add_stage::<A>()?;
                        (Some(g), b)
                    };
                    let (gb, bld) = if self.modes[1] == 2 {
                        (None, bld.skip_stage::<B>()?)
                    } else {
                        let (g, b) = bld.configure_stage(B::default())?;
                        (Some(g), b)
                    };
                    let (gc, bld) = if self.modes[2] == 2 {
                        (None, bld.skip_stage::<C>()?)
                    } else {
                        let (g, b) = bld.add_stage::<C>()?;
                        (Some(g), b)
                    };
                    let dr = bld.finish();
                    let mut input: Vec<D::Wire> = vec![];
                    macro_rules! take {
                        ($g:ident, $k:literal) => {
                            if let Some(g) = $g {
                                let wk = w.as_ref().map(|w| w[$k].clone());
                                let o = if self.modes[$k] == 0 { g.enforced(dr, wk)? } else { g.unenforced(dr, wk)? };
                                input.extend(o.iter().map(|e| e.wire().clone()));
                            }
                        };
                    }
                    take!(ga, 0);
                    take!(gb, 1);
                    take!(gc, 2);
                    let (x, y) = run(dr, &self.node, &self.sc, 1, input)?;
                    let p = |w| Element::promote(w, D::just(|| Fp::ZERO));
                    Ok(WithAux::new([p(x), p(y)].into_iter().collect_fixed()?, D::unit()))
                }
            }

            #[derive(Clone)]
            pub struct Bond {
                pub ops: Arc<Vec<BOp>>,
            }
            impl MultiStageCircuit<Fp, R> for Bond {
                type Last = C;
                type Instance<'s> = ();
                type Witness<'s> = ();
                type Output = ();
                type Aux<'s> = ();
                fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(&self, _: &mut D, _: DriverValue<D, ()>) -> Result<Bound<'dr, D, ()>>
                where
                    Self: 'dr,
                {
                    Ok(())
                }
                fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
                    &self,
                    bld: StageBuilder<'a, 'dr, D, R, (), C>,
                    _: DriverValue<D, ()>,
                ) -> Result<WithAux<Bound<'dr, D, ()>, DriverValue<D, ()>>>
                where
                    Self: 'dr,
                {
                    let no = || D::just(|| Wit { vals: vec![], fail: None });
                    let (ga, bld) = bld.add_stage::<A>()?;
                    let (gb, bld) = bld.add_stage::<B>()?;
                    let (gc, bld) = bld.add_stage::<C>()?;
                    let dr = bld.finish();
                    let mut input: Vec<D::Wire> = vec![];
                    input.extend(ga.unenforced(dr, no())?.iter().map(|e| e.wire().clone()));
                    input.extend(gb.unenforced(dr, no())?.iter().map(|e| e.wire().clone()));
                    input.extend(gc.unenforced(dr, no())?.iter().map(|e| e.wire().clone()));
                    bond(dr, &self.ops, input)?;
                    Ok(WithAux::new((), D::unit()))
                }
            }

            pub fn parts() -> Parts {
                fn rx<S: Stage<Fp, R, Witness<'static> = Wit> + Default>(a: Fp, w: Wit) -> Result<sparse::Polynomial<Fp, R>> {
                    <S as StageExt<Fp, R>>::rx(a, w)
                }
                fn geo<S: Stage<Fp, R>>() -> (usize, usize) {
                    (<S as Stage<Fp, R>>::skip_gates(), <S as StageExt<Fp, R>>::num_gates())
                }
                Parts {
                    rx: [rx::<A>, rx::<B>, rx::<C>],
                    raw: [plain_rx::<A>, plain_rx::<B>, plain_rx::<C>],
                    geo: [geo::<A>(), geo::<B>(), geo::<C>()],
                    wires: [count::<A>(), count::<B>(), count::<C>()],
                    values: [<A as Stage<Fp, R>>::values(), <B as Stage<Fp, R>>::values(), <C as Stage<Fp, R>>::values()],
                    gen_b: [
                        <A as StageExt<Fp, R>>::generator_index_for_b,
                        <B as StageExt<Fp, R>>::generator_index_for_b,
                        <C as StageExt<Fp, R>>::generator_index_for_b,
                    ],
                    bools: BOOLS,
                }
            }
            pub fn masks(ms: &MultiStage<Fp, R, Ms>) -> Result<[BondingObject<'static, Fp, R>; 4]> {
                Ok([
                    <A as StageExt<Fp, R>>::mask()?,
                    <B as StageExt<Fp, R>>::mask()?,
                    <C as StageExt<Fp, R>>::mask()?,
                    ms.final_mask()?,
                ])
            }
            pub fn go(case: &Case) -> Outcome {
                super::execute(
                    case,
                    parts(),
                    |node, sc| MultiStage::new(Ms { node, sc, modes: case.modes }),
                    masks,
                    || MultiStage::new(Bond { ops: Arc::new(case.bond.clone()) }).into_bonding_object(),
                )
            }
        }
    };
}

pub struct Parts {
    rx: [fn(Fp, Wit) -> Result<sparse::Polynomial<Fp, R>>; 3],
    /// The same layout, from arbitrary values.
    raw: [fn(Fp, &[Fp]) -> sparse::Polynomial<Fp, R>; 3],
    geo: [(usize, usize); 3],
    wires: [usize; 3],
    values: [usize; 3],
    gen_b: [fn(usize) -> usize; 3],
    bools: [bool; 3],
}

/// A stage of as many plain elements as `S` reserves, in the same place: what a
/// lying prover can put there.
pub struct Shadow<S>(PhantomData<S>, Vec<Fp>);
impl<S: Stage<Fp, R> + Send + Sync + 'static> Stage<Fp, R> for Shadow<S> {
    type Parent = S::Parent;
    type Witness<'s> = ();
    type OutputKind = FixedVec<PhantomData<Kind![Fp; Element<'_, _>]>, ValuesOf<S>>;
    fn values() -> usize {
        S::values()
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        _: DriverValue<D, ()>,
    ) -> Result<Bound<'dr, D, Self::OutputKind>>
    where
        Self: 'dr,
    {
        let mut v = vec![];
        for i in 0..S::values() {
            v.push(Element::alloc(dr, D::just(|| self.1.get(i).copied().unwrap_or(Fp::ZERO)))?);
        }
        v.into_iter().collect_fixed()
    }
}
pub struct ValuesOf<S>(PhantomData<S>);
impl<S: Stage<Fp, R> + Send + Sync + 'static> ragu_primitives::vec::Len for ValuesOf<S> {
    fn len() -> usize {
        S::values()
    }
}
fn plain_rx<S: Stage<Fp, R> + Send + Sync + 'static>(alpha: Fp, v: &[Fp]) -> sparse::Polynomial<Fp, R> {
    Shadow::<S>(PhantomData, v.to_vec()).rx_configured(alpha, ()).expect("as many values as the stage has")
}
fn count<S: Stage<Fp, R> + Default>() -> usize {
    use ragu_core::{drivers::emulator::Emulator, gadgets::Gadget, maybe::Empty};
    let mut e = Emulator::counter();
    S::default().witness(&mut e, Empty).expect("count").num_wires().expect("count")
}

chain!(plain, St<3, 3, ()>, St<8, 7, A>, St<1, 1, B>, [false; 3]);
chain!(even, St<4, 4, ()>, St<2, 2, A>, St<6, 3, B>, [false; 3]);
chain!(bits, Sb<4, 4, ()>, St<5, 4, A>, Sb<3, 2, B>, [true, false, true]);
chain!(hollow, St<2, 0, ()>, Sb<5, 5, A>, St<4, 3, B>, [false, true, false]);

// ---------------------------------------------------------------------------
// Bonding bodies
// ---------------------------------------------------------------------------

#[derive(Clone)]
pub struct Nested(Vec<(u8, u8)>, Option<u8>);
impl Routine<Fp> for Nested {
    type Input = Pair;
    type Output = Kind![Fp; Element<'_, _>];
    type Aux<'dr> = ();
    fn execute<'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        i: Bound<'dr, D, Self::Input>,
        _: DriverValue<D, ()>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        let regs = [i[0].wire().clone(), i[1].wire().clone()];
        if let Some(b) = self.1 {
            bad(dr, b, &regs[0])?;
        }
        dr.enforce_zero(|lc| combine(lc, &regs, &self.0, own_gain(&self.0)))?;
        let s = dr.add(|lc| lc.add(&regs[0]).add(&regs[1]));
        Ok(Element::promote(s, D::just(|| Fp::ZERO)))
    }
    fn predict<'dr, D: Driver<'dr, F = Fp, Wire = ()>>(
        &self,
        _: &mut D,
        _: &Bound<'dr, D, Self::Input>,
    ) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> {
        Ok(Prediction::Known(Element::promote((), D::just(|| Fp::ZERO)), D::unit()))
    }
}

/// The gain of a combination that has a term other than plain ones.
fn own_gain(t: &[(u8, u8)]) -> u8 {
    if t.iter().any(|x| x.1 > 3) { (t.iter().map(|x| x.0 as u64 * 3 + x.1 as u64).sum::<u64>() % GAINS) as u8 } else { 0 }
}

fn mention<W: Clone, L: LinearExpression<W, Fp>>(lc: L, w: &W, one: &W, k: u8) -> L {
    let lc = match k / 4 % 4 {
        0 => lc,
        1 => lc.gain(Coeff::Two),
        2 => lc.gain(Coeff::NegativeOne),
        _ => lc.gain(Coeff::Arbitrary(Fp::from(6))),
    };
    match k % 4 {
        0 => lc.add(w).add(one),
        1 => lc.sub(one).add(w).sub(w),
        2 => lc.add(w).add_term(one, Coeff::Arbitrary(Fp::from(4))).add(w),
        _ => lc.extend([(one.clone(), Coeff::Two), (w.clone(), Coeff::One)]).gain(Coeff::Two),
    }
}

fn bad<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, k: u8, w: &D::Wire) -> Result<()> {
    match k % 5 {
        0 => {
            dr.mul(|| Ok((Coeff::Zero, Coeff::Zero, Coeff::Zero)))?;
        }
        1 => {
            dr.constant(Coeff::Arbitrary(Fp::from(9)));
        }
        // One, as the first, a middle or the last of the terms.
        2 => {
            dr.add(|lc| mention(lc, w, &D::ONE, k / 5));
        }
        3 => dr.enforce_zero(|lc| mention(lc, w, &D::ONE, k / 5))?,
        _ => {
            dr.gate(|| Ok((Coeff::Zero, Coeff::Zero, Coeff::Zero, Coeff::Zero)))?;
        }
    }
    Ok(())
}

fn bond<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, ops: &[BOp], mut regs: Vec<D::Wire>) -> Result<()> {
    for op in ops {
        match op {
            BOp::Lin(t) => {
                let w = dr.add(|lc| combine(lc, &regs, t, own_gain(t)));
                regs.push(w);
            }
            BOp::Enf(t) => dr.enforce_zero(|lc| combine(lc, &regs, t, own_gain(t)))?,
            BOp::Nest(t) => nest(dr, t, None, &mut regs)?,
            BOp::Bad(k, true) => nest(dr, &[(0, 6)], Some(*k), &mut regs)?,
            BOp::Bad(k, false) => {
                let w = regs[0].clone();
                bad(dr, *k, &w)?
            }
        }
    }
    Ok(())
}

fn nest<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, t: &[(u8, u8)], b: Option<u8>, regs: &mut Vec<D::Wire>) -> Result<()> {
    let el = |i: usize| Element::promote(regs[i % regs.len()].clone(), D::just(|| Fp::ZERO));
    let k = t.first().map(|x| x.0 as usize).unwrap_or(0);
    let i: FixedVec<_, ConstLen<2>> = [el(k), el(k / 2 + 1)].into_iter().collect_fixed()?;
    let o = dr.routine(Nested(t.to_vec(), b), i)?;
    regs.push(o.wire().clone());
    Ok(())
}

// ---------------------------------------------------------------------------
// The run
// ---------------------------------------------------------------------------

fn session_values(case: &Case, p: &Parts, stage: usize, session: u8) -> Vec<Fp> {
    (0..p.wires[stage])
        .map(|i| {
            let h = hash2(hash2(case.values, (session as u64) % SESSIONS), (stage * 64 + i) as u64);
            // The intended session is honest; of the others some are not bits.
            if p.bools[stage] && (session == 0 || h % 8 < 6) { Fp::from(h & 1) } else { Fp::from(h % 7) }
        })
        .collect()
}

fn single<Q: Rank>(gate: usize, wire: u8, by: Fp) -> sparse::Polynomial<Fp, Q> {
    let mut v = sparse::View::<_, Q, _>::trace();
    let z = vec![Fp::ZERO; gate];
    for (k, w) in [&mut v.a, &mut v.b, &mut v.c, &mut v.d].into_iter().enumerate() {
        w.extend(z.iter().copied());
        w.push(if k == wire as usize % 4 { by } else { Fp::ZERO });
    }
    v.build()
}

fn execute<C>(
    case: &Case,
    p: Parts,
    make: impl Fn(Arc<RNode>, Arc<Script>) -> C,
    masks: impl Fn(&C) -> Result<[BondingObject<'static, Fp, R>; 4]>,
    bonding: impl Fn() -> Result<BondingObject<'static, Fp, R>>,
) -> Outcome
where
    C: for<'a> Circuit<Fp, Witness<'a> = [Wit; 3], Instance<'a> = [Fp; 2], Output = Pair> + 'static,
{
    let mut o = Outcome::default();
    let mut rng = Rng::new(case.sim.seed ^ 0xC17);
    let quiet = || Arc::new(Script::default());
    // A body over the bound is replaced.
    let mut node = Arc::new(case.body.clone());
    match TestRegistryBuilder::<Fp, R>::new().register_circuit(make(node.clone(), quiet())) {
        Ok(_) => {}
        Err(Error::GateBoundExceeded { .. }) | Err(Error::ConstraintBoundExceeded { .. }) => {
            o.count("probe.program_over_bound", 1);
            node = Arc::new(RNode { known: false, shape: 0, ty: 0, ops: vec![ROp::Pin(vec![(0, 7), (1, 0)], 0)] });
        }
        Err(e) => {
            o.fail("registration-error", format!("{e}"));
            return o;
        }
    }
    let mut b = TestRegistryBuilder::<Fp, R>::new();
    let circuit = make(node.clone(), quiet());
    let ms = match masks(&circuit) {
        Ok(m) => m,
        Err(e) => {
            o.fail("registration-error", format!("masks: {e}"));
            return o;
        }
    };
    let h = match b.register_circuit(circuit) {
        Ok(h) => h,
        Err(e) => {
            o.fail("registration-error", format!("{e}"));
            return o;
        }
    };
    let mh: Vec<Handle> = ms.into_iter().map(|m| b.register_bonding(m)).collect();
    let forbidden = case.bond.iter().any(|x| matches!(x, BOp::Bad(..)));
    let bh = match (bonding(), forbidden) {
        (Ok(x), false) => Some(b.register_bonding(x)),
        (Err(Error::InvalidWitness(_)), true) => {
            o.count("fault.forbidden_bonding_body", 1);
            None
        }
        (Ok(_), true) => {
            o.fail("bonding-accepted", "a bonding circuit with a gate, constant or mention of one was accepted".to_string());
            None
        }
        (Err(e), _) => {
            o.fail("bonding-refused", format!("{e}"));
            None
        }
    };
    let reg: TestRegistry<'_, Fp, R> = match b.finalize() {
        Ok(r) => r,
        Err(e) => {
            o.fail("registration-error", format!("finalize: {e}"));
            return o;
        }
    };
    // The plain synthesis of the circuit for the intended values.
    let intended: [Vec<Fp>; 3] = [0, 1, 2].map(|k| session_values(case, &p, k, 0));
    let wit = |k: usize| Wit { vals: intended[k].clone(), fail: None };
    let wits = || [wit(0), wit(1), wit(2)];
    let log = logging();
    let mut dr = Live::new();
    let out = match make(node.clone(), log.clone()).witness(&mut dr, Always::maybe_just(wits)) {
        Ok(x) => x.into_output(),
        Err(e) => {
            o.fail("synthesis-error", format!("{e}"));
            return o;
        }
    };
    let mut plan = plan_of(&dr, &log, [0, 1].map(|i| *out[i].wire()));
    // Stage wires come first, a stage's gates being two wires each; a skipped
    // stage is not told its values but its wires are there.
    let at = |k: usize| 1 + p.geo[..k].iter().map(|g| 2 * g.1).sum::<usize>();
    let place = |vals: &mut [Fp], v: &[Vec<Fp>; 3]| {
        for k in 0..3 {
            for i in 0..2 * p.geo[k].1 {
                vals[at(k) + i] = v[k].get(i).copied().unwrap_or(Fp::ZERO);
            }
        }
    };
    place(&mut plan.prefix, &intended);
    let (script, outs, vals) = plan.script(case.values, &Lies::default());
    // Each node computes one stage; another the final trace; all at once.
    let alphas: Vec<Fp> = (0..32).map(|_| field(&mut rng)).collect();
    type P = sparse::Polynomial<Fp, R>;
    let stages: Mutex<Vec<(usize, u8, P)>> = Mutex::default();
    let fin: Mutex<Option<P>> = Mutex::default();
    let notes: Mutex<Vec<(&'static str, String)>> = Mutex::default();
    let failed = Mutex::new(0u64);
    let mut clients: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
    for k in 0..3 {
        let (stages, notes, p, alphas, failed) = (&stages, &notes, &p, &alphas, &failed);
        let fail = case.fails.get(k).copied().unwrap_or(0) as usize;
        clients.push(Box::new(move || {
            for s in 0..SESSIONS as u8 {
                let vals = session_values(case, p, k, s);
                let honest = !p.bools[k] || vals.iter().all(|v| *v == Fp::ZERO || *v == Fp::ONE);
                let alpha = alphas[k * 4 + s as usize];
                if fail > 0 && !vals.is_empty() {
                    let w = Wit { vals: vals.clone(), fail: Some((fail - 1) % vals.len()) };
                    match (p.rx[k])(alpha, w) {
                        Err(Error::InvalidWitness(e)) if e.to_string().contains("injected-stage-failure") => {
                            *failed.lock().unwrap() += 1
                        }
                        Err(e) => notes.lock().unwrap().push(("wrong-error", format!("stage {k}: {e}"))),
                        Ok(_) => notes.lock().unwrap().push(("swallowed-error", format!("stage {k}"))),
                    }
                }
                let forged = (p.raw[k])(alpha, &vals);
                if honest {
                    match (p.rx[k])(alpha, Wit { vals, fail: None }) {
                        Ok(rx) => {
                            if !rx.iter_coeffs().eq(forged.iter_coeffs()) {
                                notes.lock().unwrap().push((
                                    "layout-differs",
                                    format!("stage {k}: the same wire values at other places"),
                                ));
                            }
                            stages.lock().unwrap().push((k, s, rx))
                        }
                        Err(e) => notes.lock().unwrap().push(("stage-error", format!("stage {k}: {e}"))),
                    }
                } else {
                    stages.lock().unwrap().push((k, s, forged));
                }
            }
        }));
    }
    {
        let (fin, notes, reg, make, wits) = (&fin, &notes, &reg, &make, &wits);
        let c = make(node.clone(), Arc::new(Script { vals: script, ..Script::default() }));
        let alpha = alphas[31];
        let w = wits();
        clients.push(Box::new(move || match c.trace(w).and_then(|t| reg.assemble(&t.into_output(), h, alpha)) {
            Ok(rx) => *fin.lock().unwrap() = Some(rx),
            Err(e) => notes.lock().unwrap().push(("trace-error", format!("{e}"))),
        }));
    }
    let (rep, panics) = simrt::run(case.sim.config(), clients);
    o.absorb_report(&rep);
    o.decisions = rep.decisions.clone();
    for q in panics.into_iter().flatten() {
        o.fail("panic", format!("a node panicked: {}", panic_text(&*q)));
    }
    for (c, d) in notes.into_inner().unwrap() {
        o.fail(c, d);
    }
    o.count("fault.stage_witness_failed", failed.into_inner().unwrap());
    let stages = stages.into_inner().unwrap();
    let Some(fin) = fin.into_inner().unwrap() else { return o };
    if !o.violations.is_empty() {
        return o;
    }
    o.mix(poly_hash(&fin));
    let find = |k: usize, s: u8| &stages.iter().find(|x| x.0 == k && x.1 == s % SESSIONS as u8).expect("made").2;
    // Every honest polynomial passes its own mask, and no other stage's unless
    // there is nothing in it.
    let masked = |q: &P, m: usize, y: Fp| q.revdot(&reg.y(mh[m], y)) == Fp::ZERO;
    let (y0, _) = (field(&mut rng), 0);
    for k in 0..3 {
        for m in 0..4 {
            let q = find(k, 0);
            let empty = intended[k].iter().all(|v| *v == Fp::ZERO);
            let want = k == m || empty;
            o.count("probe.masks", 1);
            if masked(q, m, y0) != want {
                o.fail("mask-wrong", format!("stage {k} against mask {m}: accepted is {}, should be {want}", !want));
            }
        }
    }
    if !masked(&fin, 3, y0) {
        o.fail("mask-wrong", "the final trace is rejected by the final mask".to_string());
    }
    for (k, nz) in case.noise.iter().enumerate() {
        let m = nz.mask as usize % 4;
        let mut q = if m == 3 { fin.clone() } else { find(m, 0).clone() };
        let (lo, hi) = if m == 3 { (p.geo[2].0 + p.geo[2].1, R::n()) } else { (p.geo[m].0, p.geo[m].0 + p.geo[m].1) };
        // Sum what lands on the same coefficient before judging.
        let mut sum: std::collections::BTreeMap<(usize, u8), Fp> = Default::default();
        for (g, w, by) in &nz.at {
            let g = 1 + (*g as usize) % (R::n() - 1);
            *sum.entry((g, *w % 4)).or_insert(Fp::ZERO) += if by % 2 == 0 { Fp::from(*by / 2 + 1) } else { -Fp::from(*by / 2 + 1) };
        }
        let mut want = true;
        for ((g, w), by) in &sum {
            q.add_assign(&single(*g, *w, *by));
            want &= *by == Fp::ZERO || (lo..hi).contains(g);
        }
        o.count("fault.coefficients_added", sum.len() as u64);
        if masked(&q, m, field(&mut rng)) != want {
            o.fail("mask-wrong", format!("noise {k}: mask {m} accepted is {}, should be {want}", !want));
        }
    }
    // Rounds: what arrives is combined with the final trace.
    for (n, round) in case.rounds.iter().enumerate() {
        let mut all = fin.clone();
        let mut only = P::default();
        let mut sums: [Vec<Fp>; 3] = [0, 1, 2].map(|k| vec![Fp::ZERO; p.values[k]]);
        let mut honest = true;
        for k in 0..3 {
            for s in &round[k].sessions {
                only.add_assign(find(k, *s));
                for (i, v) in session_values(case, &p, k, *s).into_iter().enumerate() {
                    sums[k][i] += v;
                }
            }
            if let (Some((i, by)), true) = (round[k].edit, p.values[k] > 0) {
                let i = i as usize % p.values[k];
                let by = Fp::from(by % 5);
                let (g, w) = (p.geo[k].0 + i / 2, if i % 2 == 0 { 1 } else { 3 });
                only.add_assign(&single(g, w, by));
                sums[k][i] += by;
                o.count("fault.value_edited", 1);
            }
            honest &= round[k].sessions == [0] && round[k].edit.is_none();
            let c = |o: &mut Outcome, n: &str, b: bool| o.count(n, b as u64);
            c(&mut o, "fault.stage_lost", round[k].sessions.is_empty());
            c(&mut o, "fault.stage_duplicated", round[k].sessions.len() > 1);
            c(&mut o, "fault.stage_stale", round[k].sessions.iter().any(|s| *s as u64 % SESSIONS != 0));
        }
        all.add_assign(&only);
        let mut v = vals.clone();
        place(&mut v, &sums);
        let ev = |l: &rec::Lc| l.iter().map(|(x, c)| v[*x as usize] * c).sum::<Fp>();
        let bad = rec::check(&dr.gates, &dr.lins, &v);
        let want = bad.is_none() && [ev(&plan.outs[0]), ev(&plan.outs[1])] == outs;
        if honest && !want {
            o.fail("model", format!("the intended values do not satisfy the circuit: {bad:?}"));
            return o;
        }
        let (y, z) = (field(&mut rng), field(&mut rng));
        let ky = make(node.clone(), quiet()).ky(outs, y).expect("ky");
        let acc = super::c01::identity(&reg, h, &all, ky, y, z);
        o.count(if want { "probe.rounds_satisfied" } else { "probe.rounds_unsatisfied" }, 1);
        if acc != want {
            let class = if want { "rejected-satisfied" } else { "accepted-unsatisfied" };
            o.fail(class, format!("round {n} ({round:?}), model: {bad:?}"));
        }
        // The bonding polynomial binds the stages alone.
        if let Some(bh) = bh {
            let mut dr = Live::new();
            let mut regs = vec![];
            for k in 0..3 {
                for i in 0..p.wires[k] {
                    let v = sums[k][i];
                    regs.push(dr.alloc(|| Ok(Coeff::Arbitrary(v))).expect("alloc"));
                }
            }
            if regs.is_empty() {
                continue;
            }
            bond(&mut dr, &case.bond, regs).expect("bond");
            let bad = rec::check(&[], &dr.lins, &dr.vals);
            let want = bad.is_none();
            o.count(if want { "probe.bonds_held" } else { "probe.bonds_broken" }, 1);
            let acc = only.revdot(&reg.y(bh, field(&mut rng))) == Fp::ZERO;
            if acc != want {
                o.fail("bond-wrong", format!("round {n}: bonding accepted is {acc}, model: {bad:?}"));
            }
            // Without constraints on its own wires the final trace is not bound.
        }
    }
    // A stage value is committed to under the generator it says.
    if case.commit {
        let k = (case.values % 3) as usize;
        let g = ragu_pasta::Pasta::host_generators(crate::gad::params());
        if p.geo[k].1 > 0 {
            let i = (case.values / 3) as usize % p.geo[k].1;
            let q = find(k, 0);
            let mut e = q.clone();
            let by = Fp::from(1 + case.values % 1000);
            e.add_assign(&single(p.geo[k].0 + i, 1, by));
            let d = e.commit::<EqAffine>(g) - q.commit::<EqAffine>(g);
            if d != g.g()[(p.gen_b[k])(i)] * by {
                o.fail("generator-wrong", format!("stage {k}: value {} is not committed to where it says", 2 * i));
            }
            o.count("probe.generators", 1);
        }
    }
    // Stages that do not fit are refused.
    let big = St::<3, 4, ()>(PhantomData);
    if !matches!(big.rx_configured(Fp::ONE, Wit { vals: vec![Fp::ONE; 4], fail: None }), Err(Error::GateBoundExceeded { .. })) {
        o.fail("oversized-stage", "a stage with more wires than it reserves was accepted".to_string());
    }
    if !matches!(<St<62, 1, St<2, 1, ()>> as StageExt<Fp, R>>::mask(), Err(Error::GateBoundExceeded { .. })) {
        o.fail("oversized-stage", "a stage beyond the last gate got a mask".to_string());
    }
    if <St<60, 1, St<2, 1, ()>> as StageExt<Fp, R>>::mask().is_err() {
        o.fail("oversized-stage", "a stage that just fits got no mask".to_string());
    }
    o.nontrivial = case.rounds.len() > 1;
    o.distinct.push(rep.schedule_hash);
    o
}

fn terms(rng: &mut Rng) -> Vec<(u8, u8)> {
    (0..1 + rng.below(4)).map(|_| (rng.below(12) as u8, (if rng.below(3) == 0 { rng.below(COEFFS) } else { rng.below(9) }) as u8)).collect()
}

impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn budget(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 35 } else { 1500 }
    }
    fn rule(&self) -> &'static str {
        "a seed draws one of four chains of three stages (odd, even, hollow, of bits), how each is taken (enforced, unenforced, skipped), a random body over their wires, a bonding body, the values of four sessions, stages and final trace computed on four concurrent nodes (stage witnesses may fail), and 2-8 rounds in which each stage's polynomial is lost, duplicated, stale or edited, plus added coefficients; non-trivial when more than one round; distinct by schedule hash and case"
    }
    fn generate(&self, seed: u64, _: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let sh = RShape { max_depth: 2, max_nodes: 1 + rng.below(4) as u32, max_ops: 7, known_pct: 50 };
        let mut left = sh.max_nodes;
        let body = gen_raw(&mut rng, &sh, 0, &mut left);
        let mut mode = || [0, 0, 1, 1, 2][rng.below(5) as usize];
        let modes = [mode(), mode(), mode()];
        let mut bond: Vec<BOp> = (0..1 + rng.below(4))
            .map(|_| match rng.below(5) {
                0 | 1 => BOp::Lin(terms(&mut rng)),
                2 => BOp::Nest(terms(&mut rng)),
                _ => {
                    // Mostly x - x' so that it can hold.
                    let (a, b) = (rng.below(12) as u8, rng.below(12) as u8);
                    if rng.below(3) == 0 { BOp::Enf(terms(&mut rng)) } else { BOp::Enf(vec![(a, 0), (b, 1)]) }
                }
            })
            .collect();
        if rng.below(4) == 0 {
            let k = rng.below(bond.len() as u64 + 1) as usize;
            bond.insert(k, BOp::Bad(rng.below(80) as u8, rng.below(2) == 0));
        }
        let mut rounds = vec![];
        for n in 0..2 + rng.below(7) {
            let one = |rng: &mut Rng| {
                let sessions = match rng.below(8) {
                    0 if n > 0 => vec![],
                    1 if n > 0 => vec![0, 0],
                    2 if n > 0 => vec![1 + rng.below(3) as u8],
                    3 if n > 0 => vec![0, 1 + rng.below(3) as u8],
                    _ => vec![0],
                };
                let edit = if n > 0 && rng.below(4) == 0 { Some((rng.below(8) as u8, 1 + rng.below(4))) } else { None };
                Delivery { sessions, edit }
            };
            rounds.push([one(&mut rng), one(&mut rng), one(&mut rng)]);
        }
        let noise = (0..1 + rng.below(6))
            .map(|_| {
                let (g, w, by) = (rng.below(31) as u8, rng.below(4) as u8, rng.below(6));
                let mut at = vec![(g, w, by)];
                if rng.below(2) == 0 {
                    // Often the opposite amount next to it.
                    let (g2, w2) = match rng.below(3) {
                        0 => (g, rng.below(4) as u8),
                        1 => ((g + 1) % 31, w),
                        _ => (rng.below(31) as u8, rng.below(4) as u8),
                    };
                    at.push((g2, w2, by ^ 1));
                }
                Noise { mask: rng.below(4) as u8, at }
            })
            .collect();
        let fails = (0..3).map(|_| if rng.below(4) == 0 { 1 + rng.below(8) as u8 } else { 0 }).collect();
        let case = Case {
            sim: SimCase::draw(&mut rng),
            chain: rng.below(4) as u8,
            body,
            modes,
            bond,
            values: rng.next(),
            rounds,
            noise,
            commit: rng.below(8) == 0,
            fails,
        };
        serde_json::to_value(case).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).expect("case");
        match case.chain % 4 {
            0 => plain::go(&case),
            1 => even::go(&case),
            2 => bits::go(&case),
            _ => hollow::go(&case),
        }
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = shrink_sim(case);
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let mut push = |d: Case| v.push(serde_json::to_value(d).unwrap());
        for i in 0..c.rounds.len() {
            let mut d = c.clone();
            d.rounds.remove(i);
            push(d);
            for k in 0..3 {
                if c.rounds[i][k].edit.is_some() {
                    let mut d = c.clone();
                    d.rounds[i][k].edit = None;
                    push(d);
                }
                if c.rounds[i][k].sessions != [0] {
                    let mut d = c.clone();
                    d.rounds[i][k].sessions = vec![0];
                    push(d);
                }
            }
        }
        for i in 0..c.noise.len() {
            let mut d = c.clone();
            d.noise.remove(i);
            push(d);
        }
        for i in 0..c.bond.len() {
            let mut d = c.clone();
            d.bond.remove(i);
            push(d);
        }
        for k in 0..3 {
            if c.modes[k] != 1 {
                let mut d = c.clone();
                d.modes[k] = 1;
                push(d);
            }
            if c.fails.get(k).copied().unwrap_or(0) > 0 {
                let mut d = c.clone();
                d.fails[k] = 0;
                push(d);
            }
        }
        if c.commit {
            let mut d = c.clone();
            d.commit = false;
            push(d);
        }
        for s in c.body.shrinks() {
            let mut d = c.clone();
            d.body = s;
            push(d);
        }
        v
    }
}
