use core::cmp::Ordering;
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::TryRng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[inline(always)]
const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = a as u128 + b as u128 + c as u128;
    (t as u64, (t >> 64) as u64)
}
#[inline(always)]
const fn sbb(a: u64, b: u64, borrow: u64) -> (u64, u64) {
    let t = (a as u128).wrapping_sub(b as u128 + (borrow >> 63) as u128);
    (t as u64, (t >> 64) as u64)
}
#[inline(always)]
const fn mac(a: u64, b: u64, c: u64, carry: u64) -> (u64, u64) {
    let t = a as u128 + (b as u128 * c as u128) + carry as u128;
    (t as u64, (t >> 64) as u64)
}

/// a - m if a >= m, else a.
#[inline(always)]
const fn reduce_once(a: [u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let (r0, bw) = sbb(a[0], m[0], 0);
    let (r1, bw) = sbb(a[1], m[1], bw);
    let (r2, bw) = sbb(a[2], m[2], bw);
    let (r3, bw) = sbb(a[3], m[3], bw);
    // Branch-free: whether a reduction is needed is unpredictable.
    let k = ((bw as i64) >> 63) as u64;
    [(a[0] & k) | (r0 & !k), (a[1] & k) | (r1 & !k), (a[2] & k) | (r2 & !k), (a[3] & k) | (r3 & !k)]
}

#[inline(always)]
const fn mont_mul(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4], inv: u64) -> [u64; 4] {
    let mut t = [0u64; 4];
    let mut i = 0;
    while i < 4 {
        // t += a * b[i]
        let (t0, c) = mac(t[0], a[0], b[i], 0);
        let (t1, c) = mac(t[1], a[1], b[i], c);
        let (t2, c) = mac(t[2], a[2], b[i], c);
        let (t3, t4) = mac(t[3], a[3], b[i], c);
        // reduce one limb
        let k = t0.wrapping_mul(inv);
        let (_, c) = mac(t0, k, m[0], 0);
        let (r0, c) = mac(t1, k, m[1], c);
        let (r1, c) = mac(t2, k, m[2], c);
        let (r2, c) = mac(t3, k, m[3], c);
        let (r3, _) = adc(t4, 0, c);
        t = [r0, r1, r2, r3];
        i += 1;
    }
    reduce_once(t, m)
}

#[inline(always)]
const fn add_mod(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let (r0, c) = adc(a[0], b[0], 0);
    let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c);
    let (r3, _) = adc(a[3], b[3], c);
    reduce_once([r0, r1, r2, r3], m)
}

#[inline(always)]
const fn sub_mod(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let (r0, bw) = sbb(a[0], b[0], 0);
    let (r1, bw) = sbb(a[1], b[1], bw);
    let (r2, bw) = sbb(a[2], b[2], bw);
    let (r3, bw) = sbb(a[3], b[3], bw);
    let k = ((bw as i64) >> 63) as u64;
    let (r0, c) = adc(r0, m[0] & k, 0);
    let (r1, c) = adc(r1, m[1] & k, c);
    let (r2, c) = adc(r2, m[2] & k, c);
    let (r3, _) = adc(r3, m[3] & k, c);
    [r0, r1, r2, r3]
}

const fn neg_inv(m0: u64) -> u64 {
    let mut inv = 1u64;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv);
        inv = inv.wrapping_mul(m0);
        i += 1;
    }
    inv.wrapping_neg()
}

const fn pow2_mod(k: usize, m: &[u64; 4]) -> [u64; 4] {
    let mut r = [1u64, 0, 0, 0];
    let mut i = 0;
    while i < k {
        r = add_mod(&r, &r, m);
        i += 1;
    }
    r
}

const fn shr(mut a: [u64; 4], mut k: usize) -> [u64; 4] {
    while k >= 64 {
        a = [a[1], a[2], a[3], 0];
        k -= 64;
    }
    if k > 0 {
        a = [
            (a[0] >> k) | (a[1] << (64 - k)),
            (a[1] >> k) | (a[2] << (64 - k)),
            (a[2] >> k) | (a[3] << (64 - k)),
            a[3] >> k,
        ];
    }
    a
}

macro_rules! field {
    ($name:ident, $modulus:expr, $modstr:expr, $zeta:expr) => {
        #[derive(Clone, Copy, PartialEq, core::cmp::Eq, Hash)]
        pub struct $name([u64; 4]);

        impl $name {
            const M: [u64; 4] = $modulus;
            const INV: u64 = neg_inv(Self::M[0]);
            const R1: [u64; 4] = pow2_mod(256, &Self::M);
            const R2: [u64; 4] = pow2_mod(512, &Self::M);
            const R3: [u64; 4] = pow2_mod(768, &Self::M);
            /// (m - 1) / 2^32, odd.
            const T: [u64; 4] = shr(sub_mod(&Self::M, &[1, 0, 0, 0], &Self::M), 32);

            pub const fn zero() -> Self {
                $name([0; 4])
            }
            pub const fn one() -> Self {
                $name(Self::R1)
            }
            pub const fn from_raw(v: [u64; 4]) -> Self {
                $name(mont_mul(&Self::R2, &v, &Self::M, Self::INV))
            }
            pub const fn neg(&self) -> Self {
                $name(sub_mod(&[0; 4], &self.0, &Self::M))
            }
            const fn cmul(&self, o: &Self) -> Self {
                $name(mont_mul(&self.0, &o.0, &Self::M, Self::INV))
            }
            const fn cpow(&self, e: [u64; 4]) -> Self {
                let mut r = Self::one();
                let mut i = 256;
                while i > 0 {
                    i -= 1;
                    r = r.cmul(&r);
                    if (e[i / 64] >> (i % 64)) & 1 == 1 {
                        r = r.cmul(self);
                    }
                }
                r
            }
            const fn cinv(&self) -> Self {
                self.cpow(sub_mod(&Self::M, &[2, 0, 0, 0], &Self::M))
            }
            fn canonical(&self) -> [u64; 4] {
                mont_mul(&self.0, &[1, 0, 0, 0], &Self::M, Self::INV)
            }
            fn from_u512(l: [u64; 8]) -> Self {
                let d0 = $name(mont_mul(&Self::R2, &[l[0], l[1], l[2], l[3]], &Self::M, Self::INV));
                let d1 = $name(mont_mul(&Self::R3, &[l[4], l[5], l[6], l[7]], &Self::M, Self::INV));
                d0 + d1
            }
            #[inline]
            fn mulm(&self, o: &Self) -> Self {
                simrt::field_op();
                $name(mont_mul(&self.0, &o.0, &Self::M, Self::INV))
            }
        }

        impl Default for $name {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let c = self.canonical();
                write!(f, "0x{:016x}{:016x}{:016x}{:016x}", c[3], c[2], c[1], c[0])
            }
        }
        impl From<u64> for $name {
            fn from(v: u64) -> Self {
                Self::from_raw([v, 0, 0, 0])
            }
        }
        impl From<bool> for $name {
            fn from(v: bool) -> Self {
                if v { Self::one() } else { Self::zero() }
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering {
                let (a, b) = (self.canonical(), o.canonical());
                a.iter().rev().cmp(b.iter().rev())
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self.0 == o.0) as u8)
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) { *b } else { *a }
            }
        }
        impl Neg for $name {
            type Output = Self;
            fn neg(self) -> Self {
                $name(sub_mod(&[0; 4], &self.0, &Self::M))
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            fn neg(self) -> $name {
                -*self
            }
        }
        field!(@op $name, Add, add, AddAssign, add_assign, |a: &$name, b: &$name| $name(add_mod(&a.0, &b.0, &$name::M)));
        field!(@op $name, Sub, sub, SubAssign, sub_assign, |a: &$name, b: &$name| $name(sub_mod(&a.0, &b.0, &$name::M)));
        field!(@op $name, Mul, mul, MulAssign, mul_assign, |a: &$name, b: &$name| a.mulm(b));

        impl Sum for $name {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold(Self::zero(), |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $name> for $name {
            fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
                i.fold(Self::zero(), |a, b| a + b)
            }
        }
        impl Product for $name {
            fn product<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold(Self::one(), |a, b| a * b)
            }
        }
        impl<'a> Product<&'a $name> for $name {
            fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
                i.fold(Self::one(), |a, b| a * b)
            }
        }

        impl Field for $name {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();

            fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
                let mut l = [0u64; 8];
                for x in l.iter_mut() {
                    *x = rng.try_next_u64()?;
                }
                Ok(Self::from_u512(l))
            }
            #[inline]
            fn square(&self) -> Self {
                self.mulm(self)
            }
            #[inline]
            fn double(&self) -> Self {
                $name(add_mod(&self.0, &self.0, &Self::M))
            }
            fn invert(&self) -> CtOption<Self> {
                let ok = Choice::from((self.0 != [0; 4]) as u8);
                CtOption::new(self.cinv(), ok)
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
                // Tonelli-Shanks on num/div; non-squares return sqrt(ROOT_OF_UNITY * num/div).
                if num.0 == [0; 4] {
                    return (Choice::from(1), Self::zero());
                }
                if div.0 == [0; 4] {
                    return (Choice::from(0), Self::zero());
                }
                let a = num.cmul(&div.cinv());
                match a.tonelli() {
                    Some(r) => (Choice::from(1), r),
                    None => (Choice::from(0), a.cmul(&Self::ROOT_OF_UNITY).tonelli().unwrap()),
                }
            }
        }

        impl $name {
            fn tonelli(&self) -> Option<Self> {
                let tm1_2 = shr(sub_mod(&Self::T, &[1, 0, 0, 0], &Self::M), 1);
                let w = self.cpow(tm1_2);
                let mut x = self.cmul(&w);
                let mut b = x.cmul(&w);
                let mut z = Self::ROOT_OF_UNITY;
                let mut v = 32u32;
                while b != Self::one() {
                    let mut k = 0;
                    let mut t = b;
                    while t != Self::one() {
                        t = t.cmul(&t);
                        k += 1;
                        if k == v {
                            return None;
                        }
                    }
                    let mut g = z;
                    for _ in 0..(v - k - 1) {
                        g = g.cmul(&g);
                    }
                    z = g.cmul(&g);
                    b = b.cmul(&z);
                    x = x.cmul(&g);
                    v = k;
                }
                Some(x)
            }
        }

        impl PrimeField for $name {
            type Repr = [u8; 32];
            fn from_repr(repr: [u8; 32]) -> CtOption<Self> {
                let mut l = [0u64; 4];
                for i in 0..4 {
                    l[i] = u64::from_le_bytes(repr[i * 8..i * 8 + 8].try_into().unwrap());
                }
                let lt = l.iter().rev().cmp(Self::M.iter().rev()) == Ordering::Less;
                CtOption::new(Self::from_raw(l), Choice::from(lt as u8))
            }
            fn to_repr(&self) -> [u8; 32] {
                let c = self.canonical();
                let mut r = [0u8; 32];
                for i in 0..4 {
                    r[i * 8..i * 8 + 8].copy_from_slice(&c[i].to_le_bytes());
                }
                r
            }
            fn is_odd(&self) -> Choice {
                Choice::from((self.canonical()[0] & 1) as u8)
            }
            const MODULUS: &'static str = $modstr;
            const NUM_BITS: u32 = 255;
            const CAPACITY: u32 = 254;
            const TWO_INV: Self = Self::from_raw([2, 0, 0, 0]).cinv();
            const MULTIPLICATIVE_GENERATOR: Self = Self::from_raw([5, 0, 0, 0]);
            const S: u32 = 32;
            const ROOT_OF_UNITY: Self = Self::from_raw([5, 0, 0, 0]).cpow(Self::T);
            const ROOT_OF_UNITY_INV: Self = Self::from_raw([5, 0, 0, 0]).cpow(Self::T).cinv();
            const DELTA: Self = Self::from_raw([5, 0, 0, 0]).cpow([1 << 32, 0, 0, 0]);
        }
        impl WithSmallOrderMulGroup<3> for $name {
            const ZETA: Self = Self::from_raw($zeta);
        }
        impl FromUniformBytes<64> for $name {
            fn from_uniform_bytes(bytes: &[u8; 64]) -> Self {
                let mut l = [0u64; 8];
                for i in 0..8 {
                    l[i] = u64::from_le_bytes(bytes[i * 8..i * 8 + 8].try_into().unwrap());
                }
                Self::from_u512(l)
            }
        }
    };
    (@op $name:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
        impl $tr for $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: $name) -> $name {
                ($e)(&self, &o)
            }
        }
        impl<'a> $tr<&'a $name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: &'a $name) -> $name {
                ($e)(&self, o)
            }
        }
        impl<'a> $tr<$name> for &'a $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: $name) -> $name {
                ($e)(self, &o)
            }
        }
        impl<'a, 'b> $tr<&'b $name> for &'a $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: &'b $name) -> $name {
                ($e)(self, o)
            }
        }
        impl $tra for $name {
            #[inline]
            fn $fa(&mut self, o: $name) {
                *self = ($e)(self, &o);
            }
        }
        impl<'a> $tra<&'a $name> for $name {
            #[inline]
            fn $fa(&mut self, o: &'a $name) {
                *self = ($e)(self, o);
            }
        }
    };
}

field!(
    Fp,
    [0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001",
    [0x1dad5ebdfdfe4ab9, 0x1d1f8bd237ad3149, 0x2caad5dc57aab1b0, 0x12ccca834acdba71]
);
field!(
    Fq,
    [0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
    [0x2aa9d2e050aa0e4f, 0x0fed467d47c033af, 0x511db4d81cf70f5a, 0x06819a58283e528e]
);
