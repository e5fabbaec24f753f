//! Offline stand-in for the parts of `group` 0.14.0-pre that ragu uses.
#![no_std]
#![allow(clippy::all)]

extern crate alloc;

pub use ff;
pub use ff::rand_core;

use core::fmt;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use ff::PrimeField;
use rand_core::{Rng, TryRng};
use subtle::{Choice, CtOption};

pub trait GroupOps<Rhs = Self, Output = Self>:
    Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + AddAssign<Rhs> + SubAssign<Rhs>
{
}
impl<T, Rhs, Output> GroupOps<Rhs, Output> for T where
    T: Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + AddAssign<Rhs> + SubAssign<Rhs>
{
}

pub trait GroupOpsOwned<Rhs = Self, Output = Self>: for<'r> GroupOps<&'r Rhs, Output> {}
impl<T, Rhs, Output> GroupOpsOwned<Rhs, Output> for T where T: for<'r> GroupOps<&'r Rhs, Output> {}

pub trait ScalarMul<Rhs, Output = Self>: Mul<Rhs, Output = Output> + MulAssign<Rhs> {}
impl<T, Rhs, Output> ScalarMul<Rhs, Output> for T where T: Mul<Rhs, Output = Output> + MulAssign<Rhs> {}

pub trait ScalarMulOwned<Rhs, Output = Self>: for<'r> ScalarMul<&'r Rhs, Output> {}
impl<T, Rhs, Output> ScalarMulOwned<Rhs, Output> for T where T: for<'r> ScalarMul<&'r Rhs, Output> {}

pub trait Group:
    Clone
    + Copy
    + fmt::Debug
    + Eq
    + Sized
    + Send
    + Sync
    + 'static
    + Sum
    + for<'a> Sum<&'a Self>
    + Neg<Output = Self>
    + GroupOps
    + GroupOpsOwned
    + ScalarMul<<Self as Group>::Scalar>
    + ScalarMulOwned<<Self as Group>::Scalar>
{
    type Scalar: PrimeField;
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
        match Self::try_random(rng) {
            Ok(v) => v,
            Err(e) => match e {},
        }
    }
    fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error>;
    fn identity() -> Self;
    fn generator() -> Self;
    fn is_identity(&self) -> Choice;
    #[must_use]
    fn double(&self) -> Self;
}

pub trait Curve: Group + GroupOps<<Self as Curve>::AffineRepr> + GroupOpsOwned<<Self as Curve>::AffineRepr> {
    type AffineRepr;
    fn batch_normalize(p: &[Self], q: &mut [Self::AffineRepr]) {
        assert_eq!(p.len(), q.len());
        for (p, q) in p.iter().zip(q.iter_mut()) {
            *q = p.to_affine();
        }
    }
    fn to_affine(&self) -> Self::AffineRepr;
}

pub trait GroupEncoding: Sized {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
    fn from_bytes(bytes: &Self::Repr) -> CtOption<Self>;
    fn from_bytes_unchecked(bytes: &Self::Repr) -> CtOption<Self>;
    fn to_bytes(&self) -> Self::Repr;
}

pub mod prime {
    use super::*;

    pub trait PrimeGroup: Group + GroupEncoding {}

    pub trait PrimeCurve: Curve<AffineRepr = <Self as PrimeCurve>::Affine> + PrimeGroup {
        type Affine: PrimeCurveAffine<Curve = Self, Scalar = Self::Scalar>
            + Mul<Self::Scalar, Output = Self>
            + for<'r> Mul<&'r Self::Scalar, Output = Self>;
    }

    pub trait PrimeCurveAffine:
        GroupEncoding
        + Copy
        + Clone
        + Sized
        + Send
        + Sync
        + fmt::Debug
        + PartialEq
        + Eq
        + 'static
        + Neg<Output = Self>
        + Mul<<Self as PrimeCurveAffine>::Scalar, Output = <Self as PrimeCurveAffine>::Curve>
        + for<'r> Mul<&'r <Self as PrimeCurveAffine>::Scalar, Output = <Self as PrimeCurveAffine>::Curve>
    {
        type Scalar: PrimeField;
        type Curve: PrimeCurve<Affine = Self, Scalar = Self::Scalar>;
        fn identity() -> Self;
        fn generator() -> Self;
        fn is_identity(&self) -> Choice;
        fn to_curve(&self) -> Self::Curve;
    }
}

/// Stand-in for the w-NAF recoding of a scalar: stores the scalar itself, the
/// product `base * scalar` is the same group element.
#[derive(Clone, Copy, Debug)]
pub struct WnafScalar<F: PrimeField, const WINDOW_SIZE: usize>(F);

impl<F: PrimeField, const W: usize> WnafScalar<F, W> {
    pub fn new(scalar: &F) -> Self {
        WnafScalar(*scalar)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct WnafBase<G: Group, const WINDOW_SIZE: usize>(G);

impl<G: Group, const W: usize> WnafBase<G, W> {
    pub fn new(base: G) -> Self {
        WnafBase(base)
    }
}

impl<G: Group, const W: usize> Mul<&WnafScalar<G::Scalar, W>> for &WnafBase<G, W> {
    type Output = G;
    fn mul(self, rhs: &WnafScalar<G::Scalar, W>) -> G {
        self.0 * rhs.0
    }
}
