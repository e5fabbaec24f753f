use alloc::boxed::Box;
use alloc::vec::Vec;
use core::fmt;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding};
use rand_core::TryRng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

use crate::arithmetic::{Coordinates, CurveAffine, CurveExt};
use crate::{Fp, Fq};

macro_rules! curve {
    ($name:ident, $aff:ident, $base:ident, $scalar:ident, $id:expr) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $name {
            x: $base,
            y: $base,
            z: $base,
        }
        #[derive(Clone, Copy, PartialEq, core::cmp::Eq, Hash)]
        pub struct $aff {
            x: $base,
            y: $base,
        }

        impl fmt::Debug for $aff {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if self.inf() {
                    write!(f, "Infinity")
                } else {
                    write!(f, "({:?}, {:?})", self.x, self.y)
                }
            }
        }

        impl $aff {
            #[inline]
            fn inf(&self) -> bool {
                // (0, 0) is not on y^2 = x^3 + 5 and stands for the identity.
                self.x == $base::zero() && self.y == $base::zero()
            }
        }

        impl $name {
            const ID: $name = $name { x: $base::zero(), y: $base::one(), z: $base::zero() };

            #[inline]
            fn inf(&self) -> bool {
                self.z == $base::zero()
            }
            fn dbl(&self) -> Self {
                if self.inf() {
                    return *self;
                }
                let a = self.x.square();
                let b = self.y.square();
                let c = b.square();
                let d = ((self.x + b).square() - a - c).double();
                let e = a + a.double();
                let f = e.square();
                let z3 = (self.z * self.y).double();
                let x3 = f - d.double();
                let y3 = e * (d - x3) - c.double().double().double();
                $name { x: x3, y: y3, z: z3 }
            }
            fn add_full(&self, o: &Self) -> Self {
                if self.inf() {
                    return *o;
                }
                if o.inf() {
                    return *self;
                }
                let z1z1 = self.z.square();
                let z2z2 = o.z.square();
                let u1 = self.x * z2z2;
                let u2 = o.x * z1z1;
                let s1 = self.y * z2z2 * o.z;
                let s2 = o.y * z1z1 * self.z;
                if u1 == u2 {
                    return if s1 == s2 { self.dbl() } else { Self::ID };
                }
                let h = u2 - u1;
                let i = h.double().square();
                let j = h * i;
                let r = (s2 - s1).double();
                let v = u1 * i;
                let x3 = r.square() - j - v.double();
                let y3 = r * (v - x3) - (s1 * j).double();
                let z3 = ((self.z + o.z).square() - z1z1 - z2z2) * h;
                $name { x: x3, y: y3, z: z3 }
            }
            fn add_mixed(&self, o: &$aff) -> Self {
                if o.inf() {
                    return *self;
                }
                if self.inf() {
                    return $name { x: o.x, y: o.y, z: $base::one() };
                }
                let z1z1 = self.z.square();
                let u2 = o.x * z1z1;
                let s2 = o.y * z1z1 * self.z;
                if self.x == u2 {
                    return if self.y == s2 { self.dbl() } else { Self::ID };
                }
                let h = u2 - self.x;
                let hh = h.square();
                let i = hh.double().double();
                let j = h * i;
                let r = (s2 - self.y).double();
                let v = self.x * i;
                let x3 = r.square() - j - v.double();
                let y3 = r * (v - x3) - (self.y * j).double();
                let z3 = (self.z + h).square() - z1z1 - hh;
                $name { x: x3, y: y3, z: z3 }
            }
            fn mul_scalar(&self, s: &$scalar) -> Self {
                let mut table = [Self::ID; 16];
                for i in 1..16 {
                    table[i] = table[i - 1].add_full(self);
                }
                let mut acc = Self::ID;
                for byte in s.to_repr().iter().rev() {
                    for nib in [byte >> 4, byte & 15] {
                        acc = acc.dbl().dbl().dbl().dbl();
                        acc = acc.add_full(&table[nib as usize]);
                    }
                }
                acc
            }
            fn neg_pt(&self) -> Self {
                $name { x: self.x, y: -self.y, z: self.z }
            }
            fn affine(&self) -> $aff {
                let zinv: Option<$base> = self.z.invert().into();
                match zinv {
                    None => $aff { x: $base::zero(), y: $base::zero() },
                    Some(zi) => {
                        let zi2 = zi.square();
                        $aff { x: self.x * zi2, y: self.y * zi2 * zi }
                    }
                }
            }
        }

        impl Default for $name {
            fn default() -> Self {
                Self::ID
            }
        }
        impl Default for $aff {
            fn default() -> Self {
                $aff { x: $base::zero(), y: $base::zero() }
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                if self.inf() || o.inf() {
                    return self.inf() == o.inf();
                }
                let (z1, z2) = (self.z.square(), o.z.square());
                self.x * z2 == o.x * z1 && self.y * z2 * o.z == o.y * z1 * self.z
            }
        }
        impl core::cmp::Eq for $name {}
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self == o) as u8)
            }
        }
        impl ConstantTimeEq for $aff {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self == o) as u8)
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) { *b } else { *a }
            }
        }
        impl ConditionallySelectable for $aff {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) { *b } else { *a }
            }
        }
        impl From<$name> for $aff {
            fn from(p: $name) -> $aff {
                p.affine()
            }
        }
        impl<'a> From<&'a $name> for $aff {
            fn from(p: &'a $name) -> $aff {
                p.affine()
            }
        }
        impl From<$aff> for $name {
            fn from(p: $aff) -> $name {
                $name::ID.add_mixed(&p)
            }
        }
        impl<'a> From<&'a $aff> for $name {
            fn from(p: &'a $aff) -> $name {
                $name::ID.add_mixed(p)
            }
        }
        impl Neg for $name {
            type Output = $name;
            fn neg(self) -> $name {
                self.neg_pt()
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            fn neg(self) -> $name {
                self.neg_pt()
            }
        }
        impl Neg for $aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                $aff { x: self.x, y: -self.y }
            }
        }
        impl<'a> Neg for &'a $aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                -*self
            }
        }
        curve!(@bin $name, $name, $name, Add, add, |a: &$name, b: &$name| a.add_full(b));
        curve!(@bin $name, $name, $name, Sub, sub, |a: &$name, b: &$name| a.add_full(&b.neg_pt()));
        curve!(@bin $name, $aff, $name, Add, add, |a: &$name, b: &$aff| a.add_mixed(b));
        curve!(@bin $name, $aff, $name, Sub, sub, |a: &$name, b: &$aff| a.add_mixed(&-*b));
        curve!(@bin $aff, $aff, $name, Add, add, |a: &$aff, b: &$aff| $name::from(a).add_mixed(b));
        curve!(@bin $aff, $aff, $name, Sub, sub, |a: &$aff, b: &$aff| $name::from(a).add_mixed(&-*b));
        curve!(@bin $aff, $name, $name, Add, add, |a: &$aff, b: &$name| b.add_mixed(a));
        curve!(@bin $aff, $name, $name, Sub, sub, |a: &$aff, b: &$name| b.neg_pt().add_mixed(a));
        curve!(@bin $name, $scalar, $name, Mul, mul, |a: &$name, b: &$scalar| a.mul_scalar(b));
        curve!(@bin $aff, $scalar, $name, Mul, mul, |a: &$aff, b: &$scalar| $name::from(a).mul_scalar(b));
        curve!(@asg $name, $name, AddAssign, add_assign, |a: &$name, b: &$name| a.add_full(b));
        curve!(@asg $name, $name, SubAssign, sub_assign, |a: &$name, b: &$name| a.add_full(&b.neg_pt()));
        curve!(@asg $name, $aff, AddAssign, add_assign, |a: &$name, b: &$aff| a.add_mixed(b));
        curve!(@asg $name, $aff, SubAssign, sub_assign, |a: &$name, b: &$aff| a.add_mixed(&-*b));
        curve!(@asg $name, $scalar, MulAssign, mul_assign, |a: &$name, b: &$scalar| a.mul_scalar(b));

        impl Sum for $name {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold(Self::ID, |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $name> for $name {
            fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
                i.fold(Self::ID, |a, b| a + b)
            }
        }

        impl Group for $name {
            type Scalar = $scalar;
            fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
                loop {
                    let x = $base::try_random(rng)?;
                    let flip = rng.try_next_u32()? & 1 == 1;
                    let y: Option<$base> = (x.square() * x + $base::from(5)).sqrt().into();
                    if let Some(y) = y {
                        let y = if bool::from(y.is_odd()) == flip { y } else { -y };
                        return Ok($name { x, y, z: $base::one() });
                    }
                }
            }
            fn identity() -> Self {
                Self::ID
            }
            fn generator() -> Self {
                $name { x: -$base::one(), y: $base::from(2), z: $base::one() }
            }
            fn is_identity(&self) -> Choice {
                Choice::from(self.inf() as u8)
            }
            fn double(&self) -> Self {
                self.dbl()
            }
        }
        impl Curve for $name {
            type AffineRepr = $aff;
            fn batch_normalize(p: &[Self], q: &mut [$aff]) {
                assert_eq!(p.len(), q.len());
                let mut acc = $base::one();
                let mut pre: Vec<$base> = Vec::with_capacity(p.len());
                for pt in p {
                    pre.push(acc);
                    if !pt.inf() {
                        acc *= pt.z;
                    }
                }
                acc = acc.invert().unwrap();
                for ((pt, q), pre) in p.iter().zip(q.iter_mut()).zip(pre).rev() {
                    if pt.inf() {
                        *q = $aff::default();
                    } else {
                        let zi = acc * pre;
                        acc *= pt.z;
                        let zi2 = zi.square();
                        *q = $aff { x: pt.x * zi2, y: pt.y * zi2 * zi };
                    }
                }
            }
            fn to_affine(&self) -> $aff {
                self.affine()
            }
        }
        impl GroupEncoding for $aff {
            type Repr = [u8; 32];
            fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
                let mut b = *bytes;
                let sign = b[31] >> 7;
                b[31] &= 0x7f;
                let none = CtOption::new($aff::default(), Choice::from(0));
                let x: Option<$base> = $base::from_repr(b).into();
                let x = match x {
                    Some(x) => x,
                    None => return none,
                };
                if x == $base::zero() && sign == 0 {
                    return CtOption::new($aff::default(), Choice::from(1));
                }
                let y: Option<$base> = (x.square() * x + $base::from(5)).sqrt().into();
                match y {
                    None => none,
                    Some(y) => {
                        let y = if bool::from(y.is_odd()) == (sign == 1) { y } else { -y };
                        CtOption::new($aff { x, y }, Choice::from(1))
                    }
                }
            }
            fn from_bytes_unchecked(bytes: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> [u8; 32] {
                if self.inf() {
                    return [0; 32];
                }
                let mut b = self.x.to_repr();
                b[31] |= (bool::from(self.y.is_odd()) as u8) << 7;
                b
            }
        }
        impl GroupEncoding for $name {
            type Repr = [u8; 32];
            fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
                $aff::from_bytes(bytes).map(|a| $name::from(a))
            }
            fn from_bytes_unchecked(bytes: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> [u8; 32] {
                self.affine().to_bytes()
            }
        }
        impl PrimeGroup for $name {}
        impl PrimeCurve for $name {
            type Affine = $aff;
        }
        impl PrimeCurveAffine for $aff {
            type Scalar = $scalar;
            type Curve = $name;
            fn identity() -> Self {
                $aff::default()
            }
            fn generator() -> Self {
                $aff { x: -$base::one(), y: $base::from(2) }
            }
            fn is_identity(&self) -> Choice {
                Choice::from(self.inf() as u8)
            }
            fn to_curve(&self) -> $name {
                $name::from(self)
            }
        }
        impl CurveExt for $name {
            type ScalarExt = $scalar;
            type Base = $base;
            type AffineExt = $aff;
            const CURVE_ID: &'static str = $id;
            fn endo(&self) -> Self {
                $name { x: self.x * $base::ZETA, y: self.y, z: self.z }
            }
            fn jacobian_coordinates(&self) -> ($base, $base, $base) {
                (self.x, self.y, self.z)
            }
            fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
                Box::new(move |msg: &[u8]| {
                    let mut ctr = 0u32;
                    loop {
                        let mut st = blake2b_simd::Params::new().personal(b"sim-hash2curve").to_state();
                        st.update($id.as_bytes())
                            .update(&(domain_prefix.len() as u64).to_le_bytes())
                            .update(domain_prefix.as_bytes())
                            .update(&ctr.to_le_bytes())
                            .update(msg);
                        let h = st.finalize();
                        let x = $base::from_uniform_bytes(h.as_array());
                        let y: Option<$base> = (x.square() * x + $base::from(5)).sqrt().into();
                        if let Some(y) = y {
                            let y = if bool::from(y.is_odd()) == (h.as_array()[0] & 1 == 1) { y } else { -y };
                            return $name { x, y, z: $base::one() };
                        }
                        ctr += 1;
                    }
                })
            }
            fn is_on_curve(&self) -> Choice {
                let z2 = self.z.square();
                let z6 = z2.square() * z2;
                let ok = self.inf() || self.y.square() == self.x.square() * self.x + z6 * $base::from(5);
                Choice::from(ok as u8)
            }
            fn a() -> $base {
                $base::zero()
            }
            fn b() -> $base {
                $base::from(5)
            }
            fn new_jacobian(x: $base, y: $base, z: $base) -> CtOption<Self> {
                let p = $name { x, y, z };
                CtOption::new(p, CurveExt::is_on_curve(&p))
            }
        }
        impl CurveAffine for $aff {
            type ScalarExt = $scalar;
            type Base = $base;
            type CurveExt = $name;
            fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                CtOption::new(Coordinates { x: self.x, y: self.y }, Choice::from(!self.inf() as u8))
            }
            fn from_xy(x: $base, y: $base) -> CtOption<Self> {
                let p = $aff { x, y };
                CtOption::new(p, CurveAffine::is_on_curve(&p))
            }
            fn is_on_curve(&self) -> Choice {
                let ok = self.inf() || self.y.square() == self.x.square() * self.x + $base::from(5);
                Choice::from(ok as u8)
            }
            fn a() -> $base {
                $base::zero()
            }
            fn b() -> $base {
                $base::from(5)
            }
        }
    };
    (@bin $l:ident, $r:ident, $o:ident, $tr:ident, $f:ident, $e:expr) => {
        impl $tr<$r> for $l {
            type Output = $o;
            fn $f(self, o: $r) -> $o {
                ($e)(&self, &o)
            }
        }
        impl<'a> $tr<&'a $r> for $l {
            type Output = $o;
            fn $f(self, o: &'a $r) -> $o {
                ($e)(&self, o)
            }
        }
        impl<'a> $tr<$r> for &'a $l {
            type Output = $o;
            fn $f(self, o: $r) -> $o {
                ($e)(self, &o)
            }
        }
        impl<'a, 'b> $tr<&'b $r> for &'a $l {
            type Output = $o;
            fn $f(self, o: &'b $r) -> $o {
                ($e)(self, o)
            }
        }
    };
    (@asg $l:ident, $r:ident, $tr:ident, $f:ident, $e:expr) => {
        impl $tr<$r> for $l {
            fn $f(&mut self, o: $r) {
                *self = ($e)(self, &o);
            }
        }
        impl<'a> $tr<&'a $r> for $l {
            fn $f(&mut self, o: &'a $r) {
                *self = ($e)(self, o);
            }
        }
    };
}

curve!(Ep, EpAffine, Fp, Fq, "pallas");
curve!(Eq, EqAffine, Fq, Fp, "vesta");

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn endo_and_order() {
        fn go<C: CurveExt>() {
            let g = C::generator();
            let l = <C as CurveExt>::ScalarExt::ZETA;
            assert_eq!(l * l * l, <C as CurveExt>::ScalarExt::ONE);
            assert_ne!(l, <C as CurveExt>::ScalarExt::ONE);
            assert!(g * l == g.endo());
            assert!((g * (-<C as CurveExt>::ScalarExt::ONE)) + g == C::identity());
            assert!(bool::from(g.is_on_curve()));
            let h = C::hash_to_curve("x")(&[1, 2]);
            assert!(bool::from(h.is_on_curve()));
            assert!(h * l == h.endo());
        }
        go::<Ep>();
        go::<Eq>();
    }
}
