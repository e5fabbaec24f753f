//! A tiny proof-carrying-data application for the demonstrations.
#![allow(dead_code, unused_imports)]
pub use ff::{Field, PrimeField};
pub use ragu_circuits::polynomials::{ProductionRank, Rank, sparse};
pub use ragu_core::{
    Result,
    drivers::{Driver, DriverValue},
    gadgets::{Bound, Kind},
    maybe::Maybe,
};
pub use ragu_pasta::{Fp, Fq, Pasta};
pub use ragu_pcd::{
    Application, ApplicationBuilder, Pcd, Proof,
    header::{Header, Suffix},
    sim::Part,
    step::{Encoded, Index, Step},
};
pub use ragu_primitives::Element;

pub type R = ProductionRank;
pub type App = Application<'static, Pasta, R, 4>;
pub type Pf = Proof<Pasta, R>;

pub struct One;
impl Header<Fp> for One {
    const SUFFIX: Suffix = Suffix::new(0);
    type Data = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}
/// Same encoding as `One`, another meaning.
pub struct Alt;
impl Header<Fp> for Alt {
    const SUFFIX: Suffix = Suffix::new(2);
    type Data = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}

#[macro_export]
macro_rules! step {
    ($name:ident, $idx:expr, $l:ty, $r:ty, $o:ty, |$dr:ident, $w:ident, $left:ident, $right:ident| $body:block) => {
        #[derive(Clone, Copy)]
        pub struct $name;
        impl Step<Pasta> for $name {
            const INDEX: Index = Index::new($idx);
            type Witness<'s> = Fp;
            type Aux<'s> = ();
            type Left = $l;
            type Right = $r;
            type Output = $o;
            fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>, const N: usize>(
                &self,
                $dr: &mut D,
                witness: DriverValue<D, Fp>,
                left: DriverValue<D, <$l as Header<Fp>>::Data>,
                right: DriverValue<D, <$r as Header<Fp>>::Data>,
            ) -> Result<(
                (Encoded<'dr, D, $l, N>, Encoded<'dr, D, $r, N>, Encoded<'dr, D, $o, N>),
                DriverValue<D, <$o as Header<Fp>>::Data>,
                DriverValue<D, ()>,
            )>
            where
                Self: 'dr,
            {
                let $w = Element::alloc($dr, witness)?;
                let ($left, $right) = (left, right);
                let out: Result<_> = $body;
                let (l, r, o, data) = out?;
                Ok(((l, r, o), data, D::unit()))
            }
        }
    };
}

// w^2 + 3
step!(Leaf, 0, (), (), One, |dr, w, _l, _r| {
    let s = w.square(dr)?;
    let three = Element::constant(dr, Fp::from(3));
    let o = s.add(dr, &three);
    let d = o.value().map(|v| *v);
    Ok((Encoded::from_gadget(()), Encoded::from_gadget(()), Encoded::from_gadget(o), d))
});
// l * r + w + l
step!(Merge, 1, One, One, One, |dr, w, l, r| {
    let l = Encoded::<_, One, N>::new(dr, l)?;
    let r = Encoded::<_, One, N>::new(dr, r)?;
    let m = l.as_gadget().mul(dr, r.as_gadget())?;
    let m = m.add(dr, &w);
    let o = m.add(dr, l.as_gadget());
    let d = o.value().map(|v| *v);
    Ok((l, r, Encoded::from_gadget(o), d))
});

pub fn app() -> App {
    ApplicationBuilder::<Pasta, R, 4>::new()
        .register(Leaf)
        .unwrap()
        .register(Merge)
        .unwrap()
        .finalize(Pasta::baked())
        .unwrap()
}

pub fn rng(s: u64) -> rand::rngs::StdRng {
    use rand::SeedableRng;
    rand::rngs::StdRng::seed_from_u64(s)
}

pub fn leaf(a: &App, s: u64, w: u64) -> Pcd<Pasta, R, One> {
    a.seed(&mut rng(s), Leaf, Fp::from(w)).unwrap().0
}

/// Copies an item (parts and data).
pub fn copy(p: Pcd<Pasta, R, One>) -> (Pcd<Pasta, R, One>, Pcd<Pasta, R, One>) {
    let (f, d) = p.sim_into_parts();
    (f.clone().carry(d), f.carry(d))
}

/// Applies `f` to the named part.
pub fn alter(p: Pcd<Pasta, R, One>, name: &str, f: impl Fn(Part<'_, Pasta, R>)) -> Pcd<Pasta, R, One> {
    let (mut q, d) = p.sim_into_parts();
    let mut hit = false;
    q.sim_parts(&mut |n, part| {
        if n == name {
            hit = true;
            f(part)
        }
    });
    assert!(hit, "no part {name}");
    q.carry(d)
}

pub fn names(p: Pcd<Pasta, R, One>) -> Vec<&'static str> {
    let mut v = Vec::new();
    p.sim_into_parts().0.sim_parts(&mut |n, _| v.push(n));
    v
}

/// Adds one to coefficient `at` of a stored polynomial (of either field).
pub fn bump(part: Part<'_, Pasta, R>, at: usize) {
    match part {
        Part::Poly(p) => {
            let mut c: Vec<Fp> = p.iter_coeffs().collect();
            if c.len() <= at {
                c.resize(at + 1, Fp::ZERO);
            }
            c[at] += Fp::ONE;
            *p = sparse::Polynomial::from_coeffs(c);
        }
        Part::NestedPoly(p) => {
            let mut c: Vec<Fq> = p.iter_coeffs().collect();
            if c.len() <= at {
                c.resize(at + 1, Fq::ZERO);
            }
            c[at] += Fq::ONE;
            *p = sparse::Polynomial::from_coeffs(c);
        }
        _ => panic!("not a polynomial"),
    }
}

pub fn must(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
