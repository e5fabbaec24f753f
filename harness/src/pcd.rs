//! A small proof-carrying-data application with a plain reference model, and
//! the stored form of its proofs.

use crate::circ::Env;
use crate::engine::*;
use ff::{Field, PrimeField};
use group::GroupEncoding;
use ragu_circuits::polynomials::{ProductionRank, sparse};
use ragu_circuits::{polynomials::Rank, registry::CircuitIndex};
use ragu_core::{
    Result,
    drivers::{Driver, DriverValue},
    gadgets::{Bound, Kind},
    maybe::Maybe,
};
use ragu_pasta::{Fp, Fq, Pasta};
use ragu_pcd::{
    Application, ApplicationBuilder, Pcd, Proof,
    header::{Header, Suffix},
    sim::Part,
    step::{Encoded, Index, Step},
};
use ragu_primitives::Element;
use std::sync::Arc;

pub type R = ProductionRank;
pub const HS: usize = 4;
pub type App = Application<'static, Pasta, R, HS>;
pub type Pf = Proof<Pasta, R>;

// --- headers ---------------------------------------------------------------

pub struct One;
impl Header<Fp> for One {
    const SUFFIX: Suffix = Suffix::new(0);
    type Data = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}

pub struct Two;
impl Header<Fp> for Two {
    const SUFFIX: Suffix = Suffix::new(1);
    type Data = (Fp, Fp);
    type Output = Kind![Fp; (Element<'_, _>, Element<'_, _>)];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(
        dr: &mut D,
        w: DriverValue<D, (Fp, Fp)>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        let (a, b) = w.cast();
        Ok((Element::alloc(dr, a)?, Element::alloc(dr, b)?))
    }
}

/// Same encoding as `One`, different meaning.
pub struct Alt;
impl Header<Fp> for Alt {
    const SUFFIX: Suffix = Suffix::new(2);
    type Data = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}

/// The widest header that fits: three elements and the suffix.
pub struct Full;
impl Header<Fp> for Full {
    const SUFFIX: Suffix = Suffix::new(7);
    type Data = [Fp; 3];
    type Output = ragu_primitives::vec::FixedVec<core::marker::PhantomData<Kind![Fp; Element<'_, _>]>, ragu_primitives::vec::ConstLen<3>>;
    fn encode<'dr, D: Driver<'dr, F = Fp>>(
        dr: &mut D,
        w: DriverValue<D, [Fp; 3]>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        use ragu_primitives::vec::CollectFixed;
        let mut v = Vec::new();
        for i in 0..3 {
            v.push(Element::alloc(dr, w.as_ref().map(|w| w[i]))?);
        }
        v.into_iter().collect_fixed()
    }
}

// --- steps -----------------------------------------------------------------

/// Witness of every step: a value and the fault environment.
#[derive(Clone)]
pub struct W {
    pub v: Fp,
    pub env: Arc<Env>,
}

/// The place a step asks for.
pub trait Placed {
    const AT: usize;
}

macro_rules! step {
    ($name:ident, $idx:expr, $l:ty, $r:ty, $o:ty, |$dr:ident, $w:ident, $left:ident, $right:ident| $body:block) => {
        #[derive(Clone, Copy, Default)]
        pub struct $name;
        impl Placed for $name {
            const AT: usize = $idx;
        }
        impl Step<Pasta> for $name {
            const INDEX: Index = Index::new($idx);
            type Witness<'s> = W;
            type Aux<'s> = Fp;
            type Left = $l;
            type Right = $r;
            type Output = $o;
            fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(
                &self,
                $dr: &mut D,
                witness: DriverValue<D, W>,
                left: DriverValue<D, <$l as Header<Fp>>::Data>,
                right: DriverValue<D, <$r as Header<Fp>>::Data>,
            ) -> Result<(
                (Encoded<'dr, D, $l, N>, Encoded<'dr, D, $r, N>, Encoded<'dr, D, $o, N>),
                DriverValue<D, <$o as Header<Fp>>::Data>,
                DriverValue<D, Fp>,
            )>
            where
                Self: 'dr,
            {
                let v = D::try_just(|| {
                    let w = witness.snag();
                    w.env.hit(1)?;
                    Ok(w.v)
                })?;
                let aux = v.as_ref().map(|v| *v + Fp::ONE);
                let $w = Element::alloc($dr, v)?;
                let ($left, $right) = (left, right);
                let out: Result<_> = $body;
                let (l, r, o, data) = out?;
                D::try_just(|| witness.snag().env.hit(2))?;
                Ok(((l, r, o), data, aux))
            }
        }
    };
}

// () -> One : w^2 + 3
step!(Leaf, 0, (), (), One, |dr, w, _l, _r| {
    let s = w.square(dr)?;
    let three = Element::constant(dr, Fp::from(3));
    let o = s.add(dr, &three);
    let d = o.value().map(|v| *v);
    Ok((Encoded::from_gadget(()), Encoded::from_gadget(()), Encoded::from_gadget(o), d))
});

// One, One -> One : l*r + w + l
step!(Merge, 1, One, One, One, |dr, w, l, r| {
    let l = Encoded::<_, One, N>::new(dr, l)?;
    let r = Encoded::<_, One, N>::new(dr, r)?;
    let m = l.as_gadget().mul(dr, r.as_gadget())?;
    let m = m.add(dr, &w);
    let o = m.add(dr, l.as_gadget());
    let d = o.value().map(|v| *v);
    Ok((l, r, Encoded::from_gadget(o), d))
});

// One, () -> Two : (l + w, l * w)
step!(Wrap, 2, One, (), Two, |dr, w, l, _r| {
    let l = Encoded::<_, One, N>::new(dr, l)?;
    let a = l.as_gadget().add(dr, &w);
    let b = l.as_gadget().mul(dr, &w)?;
    let d = D::just(|| (*a.value().take(), *b.value().take()));
    Ok((l, Encoded::from_gadget(()), Encoded::from_gadget((a, b)), d))
});

// Two, One -> Alt : a*b + r - w
step!(Join, 3, Two, One, Alt, |dr, w, l, r| {
    let l = Encoded::<_, Two, N>::new(dr, l)?;
    let r = Encoded::<_, One, N>::new(dr, r)?;
    let (a, b) = l.as_gadget();
    let m = a.mul(dr, b)?;
    let m = m.add(dr, r.as_gadget());
    let o = m.sub(dr, &w);
    let d = o.value().map(|v| *v);
    Ok((l, r, Encoded::from_gadget(o), d))
});

// Alt, Alt -> One : l - r*w
step!(Fold, 4, Alt, Alt, One, |dr, w, l, r| {
    let l = Encoded::<_, Alt, N>::new(dr, l)?;
    let r = Encoded::<_, Alt, N>::new(dr, r)?;
    let m = r.as_gadget().mul(dr, &w)?;
    let o = l.as_gadget().sub(dr, &m);
    let d = o.value().map(|v| *v);
    Ok((l, r, Encoded::from_gadget(o), d))
});

// () -> () : constrains w * w only
step!(Nil, 5, (), (), (), |dr, w, _l, _r| {
    let _ = w.square(dr)?;
    Ok((Encoded::from_gadget(()), Encoded::from_gadget(()), Encoded::from_gadget(()), D::unit()))
});

// (), One -> Full : (r, r * w, w)
step!(Tail, 6, (), One, Full, |dr, w, _l, r| {
    use ragu_primitives::vec::CollectFixed;
    let r = Encoded::<_, One, N>::new(dr, r)?;
    let b = r.as_gadget().mul(dr, &w)?;
    let d = D::just(|| [*r.as_gadget().value().take(), *b.value().take(), *w.value().take()]);
    let o = [r.as_gadget().clone(), b, w].into_iter().collect_fixed()?;
    Ok((Encoded::from_gadget(()), r, Encoded::from_gadget(o), d))
});

// Full, Two -> One : (a * b + c) * x - y
step!(Melt, 7, Full, Two, One, |dr, w, l, r| {
    let l = Encoded::<_, Full, N>::new(dr, l)?;
    let r = Encoded::<_, Two, N>::new(dr, r)?;
    let v = l.as_gadget();
    let m = v[0].mul(dr, &v[1])?;
    let m = m.add(dr, &v[2]);
    let (x, y) = r.as_gadget();
    let m = m.mul(dr, x)?;
    let m = m.sub(dr, y);
    let o = m.add(dr, &w);
    let d = o.value().map(|v| *v);
    Ok((l, r, Encoded::from_gadget(o), d))
});

// Another version of Leaf: w^2 + 4.
step!(LeafV, 0, (), (), One, |dr, w, _l, _r| {
    let s = w.square(dr)?;
    let four = Element::constant(dr, Fp::from(4));
    let o = s.add(dr, &four);
    let d = o.value().map(|v| *v);
    Ok((Encoded::from_gadget(()), Encoded::from_gadget(()), Encoded::from_gadget(o), d))
});
// Another version of Merge: l*r - w + l.
step!(MergeV, 1, One, One, One, |dr, w, l, r| {
    let l = Encoded::<_, One, N>::new(dr, l)?;
    let r = Encoded::<_, One, N>::new(dr, r)?;
    let m = l.as_gadget().mul(dr, r.as_gadget())?;
    let m = m.sub(dr, &w);
    let o = m.add(dr, l.as_gadget());
    let d = o.value().map(|v| *v);
    Ok((l, r, Encoded::from_gadget(o), d))
});
// Wrap whose output no longer depends on w in its first element.
step!(WrapV, 2, One, (), Two, |dr, w, l, _r| {
    let l = Encoded::<_, One, N>::new(dr, l)?;
    let a = l.as_gadget().add(dr, l.as_gadget());
    let b = l.as_gadget().mul(dr, &w)?;
    let d = D::just(|| (*a.value().take(), *b.value().take()));
    Ok((l, Encoded::from_gadget(()), Encoded::from_gadget((a, b)), d))
});
// Leaf and Merge with their places traded.
step!(MergeX, 0, One, One, One, |dr, w, l, r| {
    let l = Encoded::<_, One, N>::new(dr, l)?;
    let r = Encoded::<_, One, N>::new(dr, r)?;
    let m = l.as_gadget().mul(dr, r.as_gadget())?;
    let m = m.add(dr, &w);
    let o = m.add(dr, l.as_gadget());
    let d = o.value().map(|v| *v);
    Ok((l, r, Encoded::from_gadget(o), d))
});
step!(LeafX, 1, (), (), One, |dr, w, _l, _r| {
    let s = w.square(dr)?;
    let three = Element::constant(dr, Fp::from(3));
    let o = s.add(dr, &three);
    let d = o.value().map(|v| *v);
    Ok((Encoded::from_gadget(()), Encoded::from_gadget(()), Encoded::from_gadget(o), d))
});

/// Application versions a fleet may be running at once.
/// 0 the current one, 1 another Leaf, 2 another Merge, 3 one more step,
/// 4 Leaf and Merge renumbered, 5 one step fewer.
pub const VERSIONS: usize = 6;
pub fn build_version(v: usize) -> App {
    let b = ApplicationBuilder::<Pasta, R, HS>::new();
    let r = (|| {
        let b = match v {
            1 => b.register(LeafV)?.register(Merge)?,
            2 => b.register(Leaf)?.register(MergeV)?,
            4 => b.register(MergeX)?.register(LeafX)?,
            _ => b.register(Leaf)?.register(Merge)?,
        };
        let b = b.register(Wrap)?.register(Join)?.register(Fold)?;
        let b = b.register(Nil)?.register(Tail)?;
        let b = if v == 5 { b } else { b.register(Melt)? };
        let b = if v == 3 { b.register(Ghost)? } else { b };
        b.finalize(Pasta::baked())
    })();
    r.expect("every version builds")
}

/// A leaf item made by a version's own leaf step.
pub fn version_leaf<G: rand::CryptoRng>(app: &App, v: usize, rng: &mut G, w: W) -> Result<Item> {
    Ok(match v {
        1 => from_one(app.seed(rng, LeafV, w)?.0),
        4 => from_one(app.seed(rng, LeafX, w)?.0),
        _ => from_one(app.seed(rng, Leaf, w)?.0),
    })
}

/// A merge made by a version's own merge step.
pub fn version_merge<G: rand::CryptoRng>(app: &App, v: usize, rng: &mut G, w: W, l: &Item, r: &Item) -> Result<Item> {
    Ok(match v {
        2 => from_one(app.fuse(rng, MergeV, w, one(l), one(r))?.0),
        4 => from_one(app.fuse(rng, MergeX, w, one(l), one(r))?.0),
        _ => from_one(app.fuse(rng, Merge, w, one(l), one(r))?.0),
    })
}

/// The current application made to run code that is not what it registered.
pub fn rogue<G: rand::CryptoRng>(app: &App, which: u8, rng: &mut G, w: W, l: &Item, r: &Item, nil: &Item) -> Result<Item> {
    Ok(match which % 4 {
        0 => from_one(app.seed(rng, LeafV, w)?.0),
        1 => from_one(app.fuse(rng, MergeV, w, one(l), one(r))?.0),
        2 => from_two(app.fuse(rng, WrapV, w, one(l), unit(nil))?.0),
        _ => from_one(app.seed(rng, LeafX, w)?.0),
    })
}

// --- applications that may not be built -------------------------------------

macro_rules! twin {
    ($name:ident, $suffix:expr) => {
        /// Another header type under a suffix already taken.
        pub struct $name;
        impl Header<Fp> for $name {
            const SUFFIX: Suffix = Suffix::new($suffix);
            type Data = Fp;
            type Output = Kind![Fp; Element<'_, _>];
            fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
                Element::alloc(dr, w)
            }
        }
    };
}
twin!(One2, 0);
twin!(Two2, 1);
twin!(Alt2, 2);
twin!(Full2, 7);

macro_rules! odd {
    ($name:ident, $idx:expr, $l:ty, $r:ty, $o:ty) => {
        step!($name, $idx, $l, $r, $o, |dr, w, l, r| {
            let l = Encoded::<_, $l, N>::new(dr, l)?;
            let r = Encoded::<_, $r, N>::new(dr, r)?;
            let d = w.value().map(|v| *v);
            Ok((l, r, Encoded::from_gadget(w), d))
        });
    };
}
odd!(Odd0, 0, One, One2, Alt);
odd!(Odd1, 0, Alt2, (), Alt);
odd!(Odd2, 0, (), Alt, Alt2);
odd!(Odd3, 0, (), (), One2);
odd!(Odd4, 1, One2, One2, One2);
odd!(Odd5, 1, (), One2, Alt);
odd!(Odd6, 1, One2, (), Alt);
odd!(Odd7, 1, (), (), One2);
odd!(Odd8, 2, One, Alt2, One);
odd!(Odd9, 2, Alt2, One, One);
odd!(Odd10, 3, (), Two2, One);
odd!(Odd11, 3, Two2, (), One);
odd!(Odd12, 3, One, One, Two2);
odd!(Odd13, 7, Full2, (), One);
odd!(Odd14, 7, (), Full2, One);
odd!(Odd15, 7, (), Two, Full2);
odd!(Odd16, 7, (), (), One2);
odd!(Odd17, 0, One2, One2, Alt);
odd!(Odd18, 3, Two2, Two2, One);
odd!(Odd19, 2, Alt2, Alt2, One);
odd!(Odd20, 1, One2, One2, Alt);

type Ab = ApplicationBuilder<'static, Pasta, R, HS>;
type Entry = (fn(Ab) -> Result<Ab>, &'static str, usize, [(&'static str, i64); 3]);

/// A header type's own number, apart from its code under test.
trait Tag {
    const TAG: i64;
}
macro_rules! tags {
    ($($t:ty = $k:expr),*) => { $(impl Tag for $t { const TAG: i64 = $k; })* };
}
tags!(() = -1, One = 0, Two = 1, Alt = 2, Full = 7, One2 = 0, Two2 = 1, Alt2 = 2, Full2 = 7);

fn name_of<H: Tag>() -> (&'static str, i64) {
    (core::any::type_name::<H>(), H::TAG)
}

fn entry<S: Step<Pasta> + Placed + Default + 'static>() -> Entry
where
    S::Left: Tag,
    S::Right: Tag,
    S::Output: Tag,
{
    (
        |b| b.register(S::default()),
        core::any::type_name::<S>(),
        S::AT,
        [name_of::<S::Left>(), name_of::<S::Right>(), name_of::<S::Output>()],
    )
}

/// Steps an operator may list, well or badly placed.
pub fn shelf() -> Vec<Entry> {
    vec![
        entry::<Leaf>(),
        entry::<Merge>(),
        entry::<Wrap>(),
        entry::<Join>(),
        entry::<Fold>(),
        entry::<Nil>(),
        entry::<Tail>(),
        entry::<Melt>(),
        entry::<Ghost>(),
        entry::<LeafV>(),
        entry::<MergeV>(),
        entry::<MergeX>(),
        entry::<LeafX>(),
        entry::<WrapV>(),
        entry::<Odd0>(),
        entry::<Odd1>(),
        entry::<Odd2>(),
        entry::<Odd3>(),
        entry::<Odd4>(),
        entry::<Odd5>(),
        entry::<Odd6>(),
        entry::<Odd7>(),
        entry::<Odd8>(),
        entry::<Odd9>(),
        entry::<Odd10>(),
        entry::<Odd11>(),
        entry::<Odd12>(),
        entry::<Odd13>(),
        entry::<Odd14>(),
        entry::<Odd15>(),
        entry::<Odd16>(),
        entry::<Odd17>(),
        entry::<Odd18>(),
        entry::<Odd19>(),
        entry::<Odd20>(),
    ]
}

/// Registers the steps in turn. What the rules say, and what happened: the
/// place of the first refusal.
pub fn enlist(steps: &[usize]) -> (Option<usize>, Option<usize>) {
    let shelf = shelf();
    let mut seen: std::collections::BTreeMap<i64, &str> = Default::default();
    let mut want = None;
    for (i, s) in steps.iter().enumerate() {
        let (_, _, idx, hs) = &shelf[s % shelf.len()];
        let mut ok = *idx == i;
        for (ty, sfx) in hs {
            ok &= *seen.entry(*sfx).or_insert(ty) == *ty;
        }
        if !ok {
            want = Some(i);
            break;
        }
    }
    let mut b = Ab::new();
    for (i, s) in steps.iter().enumerate() {
        match (shelf[s % shelf.len()].0)(b) {
            Ok(n) => b = n,
            Err(_) => return (want, Some(i)),
        }
    }
    (want, None)
}

// A step no application registers.
step!(Ghost, 8, (), (), (), |dr, w, _l, _r| {
    let _ = w.square(dr)?;
    Ok((Encoded::from_gadget(()), Encoded::from_gadget(()), Encoded::from_gadget(()), D::unit()))
});

/// An application whose only step returns a header that cannot fit: five
/// elements into four slots with the suffix.
pub struct Wide;
impl Header<Fp> for Wide {
    const SUFFIX: Suffix = Suffix::new(3);
    type Data = [Fp; 5];
    type Output = ragu_primitives::vec::FixedVec<core::marker::PhantomData<Kind![Fp; Element<'_, _>]>, ragu_primitives::vec::ConstLen<5>>;
    fn encode<'dr, D: Driver<'dr, F = Fp>>(
        dr: &mut D,
        w: DriverValue<D, [Fp; 5]>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        use ragu_primitives::vec::CollectFixed;
        let mut v = Vec::new();
        for i in 0..5 {
            v.push(Element::alloc(dr, w.as_ref().map(|w| w[i]))?);
        }
        v.into_iter().collect_fixed()
    }
}

/// Rerandomizes an item under a header that does not fit.
pub fn oversized<G: rand::CryptoRng>(app: &App, rng: &mut G) -> Result<()> {
    let p: Pcd<Pasta, R, Wide> = app.sim_trivial_proof().carry([Fp::ONE; 5]);
    app.rerandomize(p, rng).map(|_| ())
}

// --- uniform handling ------------------------------------------------------

/// Number of application steps and their signatures as header kinds
/// (0 unit, 1 One, 2 Two, 3 Alt, 4 Full).
pub const STEPS: usize = 8;
pub const SIG: [(u8, u8, u8); STEPS] =
    [(0, 0, 1), (1, 1, 1), (1, 0, 2), (2, 1, 3), (3, 3, 1), (0, 0, 0), (0, 1, 4), (4, 2, 1)];
/// Elements of each header kind.
pub const WIDTH: [usize; 5] = [0, 1, 2, 1, 3];

pub fn build_app() -> App {
    try_build().expect("the application builds")
}

pub fn try_build() -> Result<App> {
    ApplicationBuilder::<Pasta, R, HS>::new()
        .register(Leaf)?
        .register(Merge)?
        .register(Wrap)?
        .register(Join)?
        .register(Fold)?
        .register(Nil)?
        .register(Tail)?
        .register(Melt)?
        .finalize(Pasta::baked())
}

/// The reference model: the data a step produces.
pub fn model(step: u8, w: Fp, l: &[Fp], r: &[Fp]) -> Vec<Fp> {
    match step {
        0 => vec![w.square() + Fp::from(3)],
        1 => vec![l[0] * r[0] + w + l[0]],
        2 => vec![l[0] + w, l[0] * w],
        3 => vec![l[0] * l[1] + r[0] - w],
        4 => vec![l[0] - r[0] * w],
        6 => vec![r[0], r[0] * w, w],
        7 => vec![(l[0] * l[1] + l[2]) * r[0] - r[1] + w],
        _ => vec![],
    }
}

/// Proof-carrying data as it travels: header kind, data, proof.
#[derive(Clone)]
pub struct Item {
    pub kind: u8,
    pub data: Vec<Fp>,
    pub proof: Pf,
}

fn one(i: &Item) -> Pcd<Pasta, R, One> {
    i.proof.clone().carry(i.data[0])
}
fn two(i: &Item) -> Pcd<Pasta, R, Two> {
    i.proof.clone().carry((i.data[0], i.data[1]))
}
fn alt(i: &Item) -> Pcd<Pasta, R, Alt> {
    i.proof.clone().carry(i.data[0])
}
fn full(i: &Item) -> Pcd<Pasta, R, Full> {
    i.proof.clone().carry([i.data[0], i.data[1], i.data[2]])
}
fn unit(i: &Item) -> Pcd<Pasta, R, ()> {
    i.proof.clone().carry(())
}
fn from_one(p: Pcd<Pasta, R, One>) -> Item {
    let (proof, d) = p.sim_into_parts();
    Item { kind: 1, data: vec![d], proof }
}
fn from_two(p: Pcd<Pasta, R, Two>) -> Item {
    let (proof, d) = p.sim_into_parts();
    Item { kind: 2, data: vec![d.0, d.1], proof }
}
fn from_alt(p: Pcd<Pasta, R, Alt>) -> Item {
    let (proof, d) = p.sim_into_parts();
    Item { kind: 3, data: vec![d], proof }
}

fn from_full(p: Pcd<Pasta, R, Full>) -> Item {
    let (proof, d) = p.sim_into_parts();
    Item { kind: 4, data: d.to_vec(), proof }
}

/// Runs a step on a node.
pub fn apply<G: rand::CryptoRng>(
    app: &App,
    rng: &mut G,
    step: u8,
    w: W,
    l: Option<&Item>,
    r: Option<&Item>,
) -> Result<(Item, Fp)> {
    Ok(match step {
        0 => {
            let (p, a) = app.seed(rng, Leaf, w)?;
            (from_one(p), a)
        }
        1 => {
            let (p, a) = app.fuse(rng, Merge, w, one(l.unwrap()), one(r.unwrap()))?;
            (from_one(p), a)
        }
        2 => {
            let (p, a) = app.fuse(rng, Wrap, w, one(l.unwrap()), unit(r.unwrap()))?;
            (from_two(p), a)
        }
        3 => {
            let (p, a) = app.fuse(rng, Join, w, two(l.unwrap()), one(r.unwrap()))?;
            (from_alt(p), a)
        }
        4 => {
            let (p, a) = app.fuse(rng, Fold, w, alt(l.unwrap()), alt(r.unwrap()))?;
            (from_one(p), a)
        }
        6 => {
            let (p, a) = app.fuse(rng, Tail, w, unit(l.unwrap()), one(r.unwrap()))?;
            (from_full(p), a)
        }
        7 => {
            let (p, a) = app.fuse(rng, Melt, w, full(l.unwrap()), two(r.unwrap()))?;
            (from_one(p), a)
        }
        _ => {
            let (p, a) = app.seed(rng, Nil, w)?;
            (Item { kind: 0, data: vec![], proof: p.sim_into_parts().0 }, a)
        }
    })
}

pub fn rerandomize<G: rand::CryptoRng>(app: &App, rng: &mut G, i: &Item) -> Result<Item> {
    Ok(match i.kind {
        1 => from_one(app.rerandomize(one(i), rng)?),
        2 => from_two(app.rerandomize(two(i), rng)?),
        3 => from_alt(app.rerandomize(alt(i), rng)?),
        4 => from_full(app.rerandomize(full(i), rng)?),
        _ => {
            let (proof, ()) = app.rerandomize::<_, ()>(i.proof.clone().carry(()), rng)?.sim_into_parts();
            Item { kind: 0, data: vec![], proof }
        }
    })
}

/// Verifies under the header kind the item claims.
pub fn verify<G: rand::CryptoRng>(app: &App, rng: G, i: &Item) -> Result<bool> {
    match i.kind {
        1 => app.verify(&one(i), rng),
        2 => app.verify(&two(i), rng),
        3 => app.verify(&alt(i), rng),
        4 => app.verify(&full(i), rng),
        _ => app.verify::<_, ()>(&i.proof.clone().carry(()), rng),
    }
}

// --- stored form -----------------------------------------------------------

pub fn rng(seed: u64) -> rand::rngs::StdRng {
    use rand::SeedableRng;
    rand::rngs::StdRng::seed_from_u64(seed)
}

fn trim<F: Field>(mut v: Vec<F>) -> Vec<F> {
    while v.last().is_some_and(|x| bool::from(x.is_zero())) {
        v.pop();
    }
    v
}

/// One part in its stored bytes.
pub fn part_bytes(part: &Part<'_, Pasta, R>) -> Vec<u8> {
    fn els<F: PrimeField<Repr = [u8; 32]>>(v: impl IntoIterator<Item = F>) -> Vec<u8> {
        trim(v.into_iter().collect::<Vec<F>>()).iter().flat_map(|x| x.to_repr()).collect()
    }
    match part {
        Part::Circuit(c) => (usize::from(**c) as u32).to_le_bytes().to_vec(),
        // Headers keep their length: prefix it.
        Part::Header(h) => {
            let mut b = (h.len() as u32).to_le_bytes().to_vec();
            b.extend(h.iter().flat_map(|x| x.to_repr()));
            b
        }
        Part::Scalar(s) => s.to_repr().to_vec(),
        Part::Poly(p) => els(p.iter_coeffs()),
        Part::NestedPoly(p) => els(p.iter_coeffs()),
        Part::Point(p) => p.to_bytes().as_ref().to_vec(),
        Part::NestedPoint(p) => p.to_bytes().as_ref().to_vec(),
    }
}

/// Names and stored bytes of every part.
pub fn dump(p: &Pf) -> Vec<(String, Vec<u8>)> {
    let mut v = Vec::new();
    let mut p = p.clone();
    p.sim_parts(&mut |name, part| v.push((name.to_string(), part_bytes(&part))));
    v
}

/// Digest of the stored form of an item.
pub fn digest(i: &Item) -> u64 {
    let mut h = hash2(77, i.kind as u64);
    for d in &i.data {
        h = hash_bytes(h, &d.to_repr());
    }
    digest_proof(h, &i.proof)
}

pub fn digest_proof(mut h: u64, p: &Pf) -> u64 {
    let mut p = p.clone();
    p.sim_parts(&mut |name, part| {
        h = hash2(h, hash_str(name));
        let b = part_bytes(&part);
        // 8 bytes at a time: proofs are megabytes.
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x100_0000_01b3).rotate_left(23);
        }
    });
    h
}

/// Writes every part to bytes and reads it back: what survives a crash.
pub fn store_and_load(p: &Pf) -> Pf {
    let mut q = p.clone();
    q.sim_parts(&mut |_, mut part| {
        let b = part_bytes(&part);
        load_part(&mut part, &b);
    });
    q
}

fn read_els<F: PrimeField<Repr = [u8; 32]>>(b: &[u8]) -> Vec<F> {
    b.chunks(32)
        .map(|c| {
            let mut r = [0u8; 32];
            r.copy_from_slice(c);
            F::from_repr(r).unwrap()
        })
        .collect()
}

pub fn load_part(part: &mut Part<'_, Pasta, R>, b: &[u8]) {
    match part {
        Part::Circuit(c) => **c = CircuitIndex::from_u32(u32::from_le_bytes(b.try_into().unwrap())),
        Part::Header(h) => **h = read_els(&b[4..]),
        Part::Scalar(s) => **s = read_els(b)[0],
        Part::Poly(p) => **p = sparse::Polynomial::from_coeffs(read_els(b)),
        Part::NestedPoly(p) => **p = sparse::Polynomial::from_coeffs(read_els(b)),
        Part::Point(p) => {
            let mut r = <<Pasta as ragu_arithmetic::Cycle>::HostCurve as GroupEncoding>::Repr::default();
            r.as_mut().copy_from_slice(b);
            **p = GroupEncoding::from_bytes(&r).unwrap();
        }
        Part::NestedPoint(p) => {
            let mut r = <<Pasta as ragu_arithmetic::Cycle>::NestedCurve as GroupEncoding>::Repr::default();
            r.as_mut().copy_from_slice(b);
            **p = GroupEncoding::from_bytes(&r).unwrap();
        }
    }
}

pub fn part_names(p: &Pf) -> Vec<&'static str> {
    let mut v = Vec::new();
    p.clone().sim_parts(&mut |n, _| v.push(n));
    v
}

// --- shared base items -----------------------------------------------------

/// Honest items every run may start from, built once per check from a fixed
/// seed: a pure function of the code.
pub struct Pool {
    pub app: App,
    pub items: Vec<Item>,
}
unsafe impl Sync for Pool {}

pub const ONE_A: usize = 0;
pub const ONE_B: usize = 1;
pub const NIL: usize = 2;
pub const MERGED: usize = 3;
pub const WRAPPED: usize = 4;
pub const RERAND: usize = 5;
pub const JOINED: usize = 6;
pub const TAILED: usize = 7;
pub const POOL: usize = 8;

pub fn plain(v: u64) -> W {
    W { v: Fp::from(v), env: Arc::new(Env::default()) }
}

fn pool_item(app: &App, k: usize, it: &[Option<Item>]) -> Item {
    let g = &mut rng(1000 + k as u64);
    let i = |k: usize| it[k].as_ref();
    match k {
        ONE_A => apply(app, g, 0, plain(5), None, None).unwrap().0,
        ONE_B => apply(app, g, 0, plain(11), None, None).unwrap().0,
        NIL => apply(app, g, 5, plain(2), None, None).unwrap().0,
        MERGED => apply(app, g, 1, plain(7), i(ONE_A), i(ONE_B)).unwrap().0,
        WRAPPED => apply(app, g, 2, plain(9), i(ONE_B), i(NIL)).unwrap().0,
        TAILED => apply(app, g, 6, plain(13), i(NIL), i(ONE_A)).unwrap().0,
        RERAND => rerandomize(app, g, i(ONE_A).unwrap()).unwrap(),
        _ => apply(app, g, 3, plain(4), i(WRAPPED), i(MERGED)).unwrap().0,
    }
}

fn pool_file() -> Option<std::path::PathBuf> {
    std::env::var("HARNESS_SCRATCH").ok().map(|d| std::path::Path::new(&d).join("pool.bin"))
}

fn build_pool() -> Vec<Item> {
    let mut it: Vec<Option<Item>> = vec![None; POOL];
    for level in [&[ONE_A, ONE_B, NIL][..], &[MERGED, WRAPPED, RERAND, TAILED], &[JOINED]] {
        let done = &it;
        let new: Vec<Item> = std::thread::scope(|s| {
            let hs: Vec<_> = level.iter().map(|k| s.spawn(move || pool_item(&build_app(), *k, done))).collect();
            hs.into_iter().map(|h| h.join().expect("honest step")).collect()
        });
        for (k, i) in level.iter().zip(new) {
            it[*k] = Some(i);
        }
    }
    it.into_iter().map(|i| i.unwrap()).collect()
}

/// Builds the pool file for the worker processes.
pub fn prepare_pool() {
    let items = build_pool();
    if let Some(f) = pool_file() {
        let mut out: Vec<u8> = Vec::new();
        for i in &items {
            out.push(i.kind);
            out.push(i.data.len() as u8);
            for d in &i.data {
                out.extend(d.to_repr());
            }
            for (_, b) in dump(&i.proof) {
                out.extend((b.len() as u32).to_le_bytes());
                out.extend(b);
            }
        }
        std::fs::write(f, out).expect("write pool");
    }
}

fn load_pool(app: &App, b: &[u8]) -> Vec<Item> {
    let mut at = 0;
    let blank = app.sim_trivial_proof();
    let mut items = Vec::new();
    while at < b.len() {
        let (kind, n) = (b[at], b[at + 1] as usize);
        at += 2;
        let data = read_els(&b[at..at + 32 * n]);
        at += 32 * n;
        let mut proof = blank.clone();
        proof.sim_parts(&mut |_, mut part| {
            let n = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
            load_part(&mut part, &b[at + 4..at + 4 + n]);
            at += 4 + n;
        });
        items.push(Item { kind, data, proof });
    }
    items
}

pub fn pool() -> &'static Pool {
    static P: std::sync::OnceLock<Pool> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let app = build_app();
        let items = match pool_file().and_then(|f| std::fs::read(f).ok()) {
            Some(b) => load_pool(&app, &b),
            None => build_pool(),
        };
        Pool { app, items }
    })
}

// --- damage ----------------------------------------------------------------

/// How a stored part is damaged.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Damage {
    /// One element changes by `delta`.
    Element { at: u64, delta: u64 },
    /// Two neighbouring elements trade places.
    Swap { at: u64 },
    /// A run of stored sectors reads back as zeros.
    Zeroed { at: u64, len: u64 },
    /// Torn write: the first part of the bytes is another item's.
    Torn { at: u64, donor: u64 },
    /// The whole part is another item's (lost write / misdirected read).
    Foreign { donor: u64 },
    /// The part reads back scaled (a stuck bit in a shifted encoding).
    Scaled { by: u64 },
    /// Truncated or extended by whole elements.
    Resized { grow: bool },
    /// The whole part reads back as noise.
    Noise { seed: u64 },
}

/// Applies damage to a part; returns whether its stored form changed and, for
/// polynomials, whether a product wire (degree in `1..n`) changed.
pub fn damage(part: &mut Part<'_, Pasta, R>, d: &Damage, donor: &[u8]) -> (bool, bool) {
    fn els<F: PrimeField<Repr = [u8; 32]>>(v: &mut Vec<F>, d: &Damage, donor: &[u8], first: u64, span: u64) {
        let n = v.len() as u64;
        if n == 0 {
            return;
        }
        let span = span.min(n.saturating_sub(first)).max(1);
        let pos = |at: u64| ((first + at % span) % n) as usize;
        match d {
            Damage::Element { at, delta } => v[pos(*at)] += F::from(1 + *delta),
            Damage::Swap { at } => {
                let i = pos(*at);
                let j = (i + 1) % n as usize;
                v.swap(i, j)
            }
            Damage::Zeroed { at, len } => {
                let i = pos(*at);
                let j = (i + 1 + *len as usize).min(n as usize);
                v[i..j].fill(F::ZERO)
            }
            Damage::Torn { at, .. } => {
                let o: Vec<F> = read_els(donor);
                let k = pos(*at) + 1;
                for i in 0..k {
                    v[i] = o.get(i).copied().unwrap_or(F::ZERO);
                }
            }
            Damage::Foreign { .. } => {
                let mut o: Vec<F> = read_els(donor);
                o.resize(v.len(), F::ZERO);
                *v = o;
            }
            Damage::Scaled { by } => {
                for x in v.iter_mut() {
                    *x *= F::from(2 + *by)
                }
            }
            Damage::Resized { .. } => {}
            Damage::Noise { seed } => {
                let mut r = Rng::new(*seed);
                for x in v.iter_mut() {
                    *x = F::from(r.next()) * F::from(r.next()) + F::from(r.next());
                }
            }
        }
    }
    let n = R::n() as u64;
    let before = part_bytes(part);
    let mut product = false;
    match part {
        Part::Circuit(c) => {
            let i = usize::from(**c) as u64;
            let j = match d {
                Damage::Element { delta, .. } => i + 1 + delta % 64,
                Damage::Foreign { .. } => u32::from_le_bytes(donor.try_into().unwrap()) as u64,
                Damage::Scaled { by } => (i * (2 + by % 1000)).min(u32::MAX as u64),
                Damage::Resized { .. } => u32::MAX as u64 - 1,
                _ => 0,
            };
            **c = CircuitIndex::from_u32(j as u32);
        }
        Part::Header(h) => match d {
            Damage::Resized { grow: true } => h.push(Fp::ZERO),
            Damage::Resized { grow: false } => {
                h.pop();
            }
            d => {
                let m = h.len() as u64;
                els(h, d, donor.get(4..).unwrap_or(&[]), 0, m)
            }
        },
        Part::Scalar(s) => {
            let mut v = vec![**s];
            els(&mut v, d, donor, 0, 1);
            **s = v[0];
        }
        Part::Poly(p) => {
            let old: Vec<Fp> = p.iter_coeffs().collect();
            let mut v = old.clone();
            els(&mut v, d, donor, 1, n - 1);
            product = v[1..n as usize] != old[1..n as usize];
            **p = sparse::Polynomial::from_coeffs(v);
        }
        Part::NestedPoly(p) => {
            let old: Vec<ragu_pasta::Fq> = p.iter_coeffs().collect();
            let mut v = old.clone();
            els(&mut v, d, donor, 1, n - 1);
            product = v[1..n as usize] != old[1..n as usize];
            **p = sparse::Polynomial::from_coeffs(v);
        }
        Part::Point(p) => match d {
            Damage::Foreign { .. } | Damage::Torn { .. } => load_part(&mut Part::Point(&mut **p), donor),
            _ => **p = (-**p).into(),
        },
        Part::NestedPoint(p) => match d {
            Damage::Foreign { .. } | Damage::Torn { .. } => load_part(&mut Part::NestedPoint(&mut **p), donor),
            _ => **p = (-**p).into(),
        },
    }
    (part_bytes(part) != before, product)
}

/// Damages the `k`-th part of a proof, with donor bytes from `donor`.
pub fn damage_part(p: &mut Pf, k: usize, d: &Damage, donor: &Pf) -> (&'static str, bool, bool) {
    let mut bytes = Vec::new();
    if matches!(d, Damage::Torn { .. } | Damage::Foreign { .. }) {
        let mut i = 0;
        donor.clone().sim_parts(&mut |_, part| {
            if i == k {
                bytes = part_bytes(&part);
            }
            i += 1;
        });
    }
    let (mut i, mut out) = (0, ("", false, false));
    p.sim_parts(&mut |name, mut part| {
        if i == k {
            let (a, b) = damage(&mut part, d, &bytes);
            out = (name, a, b);
        }
        i += 1;
    });
    out
}

/// Lets an application that is used by one thread at a time cross into the
/// simulator's client thread.
pub struct Shared<'a>(pub &'a App);
unsafe impl Send for Shared<'_> {}
unsafe impl Sync for Shared<'_> {}
impl<'a> Shared<'a> {
    pub fn get(&self) -> &'a App {
        self.0
    }
}

/// Verifies with an application of another header size.
pub fn wide_verify<G: rand::CryptoRng>(rng: G, i: &Item) -> Result<bool> {
    let app = ApplicationBuilder::<Pasta, R, 5>::new()
        .register(Leaf)?
        .register(Merge)?
        .register(Wrap)?
        .register(Join)?
        .register(Fold)?
        .register(Nil)?
        .register(Tail)?
        .register(Melt)?
        .finalize(Pasta::baked())?;
    match i.kind {
        1 => app.verify(&one(i), rng),
        2 => app.verify(&two(i), rng),
        3 => app.verify(&alt(i), rng),
        4 => app.verify(&full(i), rng),
        4 => app.verify(&full(i), rng),
        _ => app.verify(&unit(i), rng),
    }
}
