//! Offline stand-in for `pasta_curves`: the real Pallas/Vesta fields and
//! curves (same moduli, generators, roots of unity, cube roots and encodings)
//! behind the API surface that ragu uses.  `hash_to_curve` is a stub
//! (BLAKE2b try-and-increment, not SSWU); everything else computes the same
//! mathematical functions, in variable time.
#![allow(clippy::all)]

extern crate alloc;

pub use ff;
pub use group;

pub mod arithmetic;
#[macro_use]
mod curves;
#[macro_use]
mod fields;

pub use curves::{Ep, EpAffine, Eq, EqAffine};
pub use fields::{Fp, Fq};

pub mod pallas {
    pub type Base = super::Fp;
    pub type Scalar = super::Fq;
    pub type Point = super::Ep;
    pub type Affine = super::EpAffine;
}
pub mod vesta {
    pub type Base = super::Fq;
    pub type Scalar = super::Fp;
    pub type Point = super::Eq;
    pub type Affine = super::EqAffine;
}
