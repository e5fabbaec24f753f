//! Applications of other shapes: header sizes, numbers of steps, and places of
//! the working steps among them.

use crate::pcd::{R, rng};
use crate::engine::guard;
use ff::Field;
use ragu_core::{
    Result,
    drivers::{Driver, DriverValue},
    gadgets::{Bound, Kind},
    maybe::Maybe,
};
use ragu_pasta::{Fp, Pasta};
use ragu_pcd::{
    Application, ApplicationBuilder, Pcd,
    header::{Header, Suffix},
    step::{Encoded, Index, Step},
};
use ragu_primitives::{
    Element,
    vec::{CollectFixed, ConstLen, FixedVec},
};

/// `M` elements.
pub struct Bag<const M: usize>;
impl<const M: usize> Header<Fp> for Bag<M> {
    const SUFFIX: Suffix = Suffix::new(11);
    type Data = [Fp; M];
    type Output = FixedVec<core::marker::PhantomData<Kind![Fp; Element<'_, _>]>, ConstLen<M>>;
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, [Fp; M]>) -> Result<Bound<'dr, D, Self::Output>> {
        let mut v = Vec::new();
        for i in 0..M {
            v.push(Element::alloc(dr, w.as_ref().map(|w| w[i]))?);
        }
        v.into_iter().collect_fixed()
    }
}

/// `I`-th step: makes a bag of `w, w + 1, ...` powers.
#[derive(Clone, Copy)]
pub struct MLeaf<const I: usize, const M: usize>;
impl<const I: usize, const M: usize> Step<Pasta> for MLeaf<I, M> {
    const INDEX: Index = Index::new(I);
    type Witness<'s> = Fp;
    type Aux<'s> = ();
    type Left = ();
    type Right = ();
    type Output = Bag<M>;
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(
        &self,
        dr: &mut D,
        witness: DriverValue<D, Fp>,
        _: DriverValue<D, ()>,
        _: DriverValue<D, ()>,
    ) -> Result<((Encoded<'dr, D, (), N>, Encoded<'dr, D, (), N>, Encoded<'dr, D, Bag<M>, N>), DriverValue<D, [Fp; M]>, DriverValue<D, ()>)>
    where
        Self: 'dr,
    {
        let w = Element::alloc(dr, witness)?;
        let mut acc = w.clone();
        let mut v = Vec::new();
        for _ in 0..M {
            v.push(acc.clone());
            acc = acc.mul(dr, &w)?;
        }
        let d = D::just(|| core::array::from_fn(|i| *v[i].value().take()));
        let o = v.clone().into_iter().collect_fixed()?;
        Ok(((Encoded::from_gadget(()), Encoded::from_gadget(()), Encoded::from_gadget(o)), d, D::unit()))
    }
}

/// `I`-th step: combines two bags back to front.
#[derive(Clone, Copy)]
pub struct MMerge<const I: usize, const M: usize>;
impl<const I: usize, const M: usize> Step<Pasta> for MMerge<I, M> {
    const INDEX: Index = Index::new(I);
    type Witness<'s> = Fp;
    type Aux<'s> = ();
    type Left = Bag<M>;
    type Right = Bag<M>;
    type Output = Bag<M>;
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(
        &self,
        dr: &mut D,
        witness: DriverValue<D, Fp>,
        l: DriverValue<D, [Fp; M]>,
        r: DriverValue<D, [Fp; M]>,
    ) -> Result<((Encoded<'dr, D, Bag<M>, N>, Encoded<'dr, D, Bag<M>, N>, Encoded<'dr, D, Bag<M>, N>), DriverValue<D, [Fp; M]>, DriverValue<D, ()>)>
    where
        Self: 'dr,
    {
        let w = Element::alloc(dr, witness)?;
        let l = Encoded::<_, Bag<M>, N>::new(dr, l)?;
        let r = Encoded::<_, Bag<M>, N>::new(dr, r)?;
        let mut v = Vec::new();
        for i in 0..M {
            let m = l.as_gadget()[i].mul(dr, &r.as_gadget()[M - 1 - i])?;
            v.push(m.add(dr, &w));
        }
        let d = D::just(|| core::array::from_fn(|i| *v[i].value().take()));
        let o = v.clone().into_iter().collect_fixed()?;
        Ok(((l, r, Encoded::from_gadget(o)), d, D::unit()))
    }
}

/// A step that only takes up a place.
#[derive(Clone, Copy)]
pub struct Pad<const I: usize>;
impl<const I: usize> Step<Pasta> for Pad<I> {
    const INDEX: Index = Index::new(I);
    type Witness<'s> = Fp;
    type Aux<'s> = ();
    type Left = ();
    type Right = ();
    type Output = ();
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(
        &self,
        dr: &mut D,
        witness: DriverValue<D, Fp>,
        _: DriverValue<D, ()>,
        _: DriverValue<D, ()>,
    ) -> Result<((Encoded<'dr, D, (), N>, Encoded<'dr, D, (), N>, Encoded<'dr, D, (), N>), DriverValue<D, ()>, DriverValue<D, ()>)>
    where
        Self: 'dr,
    {
        let w = Element::alloc(dr, witness)?;
        for _ in 0..I % 3 {
            w.square(dr)?;
        }
        Ok(((Encoded::from_gadget(()), Encoded::from_gadget(()), Encoded::from_gadget(())), D::unit(), D::unit()))
    }
}

type Mini<const HS: usize> = Application<'static, Pasta, R, HS>;
type Bad = (String, String);

fn copy<const M: usize>(p: Pcd<Pasta, R, Bag<M>>) -> (Pcd<Pasta, R, Bag<M>>, Pcd<Pasta, R, Bag<M>>) {
    let (f, d) = p.sim_into_parts();
    (f.clone().carry(d), f.carry(d))
}

/// A short honest history, and the obvious lies about its items.
fn drive<const HS: usize, const M: usize, const A: usize, const B: usize>(app: Mini<HS>, g: u64) -> std::result::Result<u64, Bad> {
    let e = |what: &str| {
        let what = what.to_string();
        move |e: ragu_core::Error| ("honest-step-error".to_string(), format!("{what} failed (header size {HS}, {M} elements, steps {A} and {B}): {e}"))
    };
    let wrong = |what: &str| Err(("honest-rejected".to_string(), format!("{what} is not accepted (header size {HS}, {M} elements, steps {A} and {B})")));
    let data = |what: &str| Err(("wrong-data".to_string(), format!("{what} carries other data than the model (header size {HS}, {M} elements)")));
    let lie = |what: &str| Err(("accepted".to_string(), format!("{what} is accepted (header size {HS}, {M} elements)")));
    let (w, x) = (Fp::from(3 + g % 50), Fp::from(g % 7));
    let leaf = |w: Fp| -> [Fp; M] { core::array::from_fn(|i| w.pow_vartime([i as u64 + 1])) };
    let merge = |l: &[Fp; M], r: &[Fp; M], w: Fp| -> [Fp; M] { core::array::from_fn(|i| l[i] * r[M - 1 - i] + w) };
    let p = app.seed(&mut rng(g), MLeaf::<A, M>, w).map_err(e("the leaf step"))?.0;
    let q = app.seed(&mut rng(g + 1), MLeaf::<A, M>, x).map_err(e("the leaf step"))?.0;
    let (p, p2) = copy(p);
    let (p2, p3) = copy(p2);
    if *p.data() != leaf(w) || *q.data() != leaf(x) {
        return data("a leaf");
    }
    if !app.verify(&p, rng(g + 2)).map_err(e("verifying"))? {
        return wrong("a leaf");
    }
    let m = app.fuse(&mut rng(g + 3), MMerge::<B, M>, x, p, q).map_err(e("the merge step"))?.0;
    if *m.data() != merge(&leaf(w), &leaf(x), x) {
        return data("a merged item");
    }
    if !app.verify(&m, rng(g + 4)).map_err(e("verifying"))? {
        return wrong("a merged item");
    }
    let (m, m2) = copy(m);
    let md = *m.data();
    let r = app.rerandomize(m, &mut rng(g + 5)).map_err(e("rerandomizing"))?;
    if *r.data() != md {
        return data("a rerandomized item");
    }
    if !app.verify(&r, rng(g + 6)).map_err(e("verifying"))? {
        return wrong("a rerandomized item");
    }
    let d = app.fuse(&mut rng(g + 7), MMerge::<B, M>, w, p2, r).map_err(e("the merge step"))?.0;
    if *d.data() != merge(&leaf(w), &md, w) {
        return data("a merged item");
    }
    if !app.verify(&d, rng(g + 8)).map_err(e("verifying"))? {
        return wrong("an item made from a rerandomized one");
    }
    // Lies: other data, other header type, another item's proof.
    if M > 0 {
        let (f, mut dd) = m2.sim_into_parts();
        dd[g as usize % M] += Fp::ONE;
        let (bad, bad2) = copy(f.carry::<Bag<M>>(dd));
        if app.verify(&bad, rng(g + 9)).unwrap_or(false) {
            return lie("an item with altered data");
        }
        if let Ok(Ok((c, ()))) = guard(|| app.fuse(&mut rng(g + 10), MMerge::<B, M>, w, p3, bad2)) {
            if app.verify(&c, rng(g + 11)).unwrap_or(false) {
                return lie("an item made from one with altered data");
            }
        }
    }
    let (f, dd) = d.sim_into_parts();
    let unit: Pcd<Pasta, R, ()> = f.clone().carry(());
    if app.verify(&unit, rng(g + 12)).unwrap_or(false) {
        return lie("an item relabelled as a unit item");
    }
    let _ = dd;
    Ok(crate::pcd::digest_proof(g, &f))
}

macro_rules! register {
    ($b:expr; $($i:literal)*) => {{
        let b = $b;
        $(let b = b.register(Pad::<$i>)?;)*
        b
    }};
}

macro_rules! shapes {
    ($($k:literal => $hs:literal, $m:literal, [$($pre:literal)*] $a:literal $b:literal [$($post:literal)*];)*) => {
        pub const SHAPES: u64 = [$($k),*].len() as u64;
        /// Runs shape `k`.
        pub fn run(k: u64, g: u64) -> std::result::Result<u64, Bad> {
            match k {
                $($k => {
                    let build = || -> Result<Mini<$hs>> {
                        let b = ApplicationBuilder::<Pasta, R, $hs>::new();
                        let b = register!(b; $($pre)*);
                        let b = b.register(MLeaf::<$a, $m>)?.register(MMerge::<$b, $m>)?;
                        let b = register!(b; $($post)*);
                        b.finalize(Pasta::baked())
                    };
                    let app = build().map_err(|e| ("registration-error".to_string(), format!(
                        "an application with header size {}, {} elements and working steps {}, {} cannot be built: {e}", $hs, $m, $a, $b)))?;
                    drive::<$hs, $m, $a, $b>(app, g)
                })*
                _ => unreachable!(),
            }
        }
    };
}

shapes! {
    0 => 2, 1, [] 0 1 [];
    1 => 3, 2, [] 0 1 [2];
    2 => 5, 4, [0] 1 2 [3];
    3 => 8, 7, [] 0 1 [];
    4 => 4, 3, [] 0 1 [2 3 4];
    5 => 4, 2, [0 1 2] 3 4 [5];
    6 => 4, 3, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14] 15 16 [];
    7 => 4, 1, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15] 16 17 [];
    8 => 4, 3, [] 0 1 [2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19];
    9 => 12, 11, [] 0 1 [];
    10 => 6, 2, [0 1 2 3 4] 5 6 [];
    11 => 1, 0, [] 0 1 [];
}
