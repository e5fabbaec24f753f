//! A polynomial means the same after any history of operations on it.
//!
//! Callers share a set of published polynomials and work on registers of
//! their own. Beside every polynomial goes the plain vector of its
//! coefficients, worked on by the definitions.

use crate::engine::*;
use crate::props::c01::{fe_bytes, field};
use ff::{Field, PrimeField};
use group::{Curve, Group};
use pasta_curves::{Eq, EqAffine};
use ragu_arithmetic::{Cycle, Domain, FixedGenerators, bitreverse, factor, factor_iter, geosum};
use ragu_circuits::polynomials::{ProductionRank, Rank, TestRank, sparse};
use ragu_pasta::Fp;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::Rng;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

type Poly<R> = sparse::Polynomial<Fp, R>;

/// A scalar: small kinds or the field element of a seed.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum K {
    Zero,
    One,
    Neg,
    Two,
    /// A root of unity of order 2^k.
    Root(u8),
    Any(u64),
}
fn root(k: u32) -> Fp {
    let mut w = Fp::ROOT_OF_UNITY;
    for _ in k..Fp::S {
        w = w.square();
    }
    w
}
impl K {
    fn draw(rng: &mut Rng) -> K {
        match rng.below(12) {
            0 => K::Zero,
            1 => K::One,
            2 => K::Neg,
            3 => K::Two,
            4 => K::Root(rng.below(14) as u8),
            _ => K::Any(rng.next()),
        }
    }
    fn value(&self) -> Fp {
        match self {
            K::Zero => Fp::ZERO,
            K::One => Fp::ONE,
            K::Neg => -Fp::ONE,
            K::Two => Fp::ONE.double(),
            K::Root(k) => root((*k).min(32) as u32),
            K::Any(s) => field(&mut Rng::new(*s)),
        }
    }
}

/// Where a source comes from: own register or what another caller published.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Src {
    Own(u8),
    Shared(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// From a vector of coefficients laid out by a seed.
    Build { dst: u8, seed: u64 },
    /// From wire buffers.
    View { dst: u8, seed: u64, wiring: bool },
    Random { dst: u8, seed: u64 },
    Copy { dst: u8, src: Src },
    Publish { slot: u8, src: u8 },
    Add { dst: u8, src: Src, ops: bool },
    Sub { dst: u8, src: Src, ops: bool },
    /// Subtracts the register's own coefficients in drawn places.
    Cancel { dst: u8, seed: u64 },
    Scale { dst: u8, k: K },
    Negate { dst: u8 },
    Dilate { dst: u8, k: K },
    /// Weighted sum; the source of terms fails before term `fail`.
    Fold { dst: u8, srcs: Vec<Src>, k: K, fail: Option<u8> },
    Eval { src: Src, k: K },
    Revdot { a: Src, b: Src },
    /// Reads from both ends in a drawn order.
    Coeffs { src: Src, seed: u64 },
    Commit { src: Src, affine: bool },
    /// Transform over registers.
    Fft { srcs: Vec<Src>, k: u8, inverse: bool, keep: Option<(u8, u8)> },
    /// Quotient by a linear factor.
    Factor { dst: u8, src: Src, k: K, lazy: bool },
    Tz { dst: u8, k: K },
    Tx { dst: u8, k: K },
    Txz { x: K, z: K },
    /// Weights of the points of a domain.
    Ell { k: u8, x: K, amount: u16, src: Src },
    Geosum { k: K, m: u16 },
    /// Too long by `by`.
    TooLong { by: u8, seed: u64, view: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub big: bool,
    pub regs: u8,
    pub slots: u8,
    pub clients: Vec<Vec<Op>>,
}

pub struct C18;

fn coef(rng: &mut Rng) -> Fp {
    match rng.below(6) {
        0 => Fp::ONE,
        1 => -Fp::ONE,
        _ => field(rng),
    }
}

/// A dense vector with runs and gaps, often at the borders of quarters.
fn layout(seed: u64, n: usize, max: usize) -> Vec<Fp> {
    let mut rng = Rng::new(seed);
    let len = match rng.below(6) {
        0 => max,
        1 => 0,
        2 => rng.below(8).min(max as u64) as usize,
        _ => rng.below(max as u64 + 1) as usize,
    };
    let mut v = vec![Fp::ZERO; len];
    if len == 0 {
        return v;
    }
    match rng.below(8) {
        // Full.
        0 => v.iter_mut().for_each(|x| *x = coef(&mut rng)),
        // All zeroes.
        1 => {}
        _ => {
            for _ in 0..1 + rng.below(5) {
                let at = if rng.below(3) == 0 {
                    let b = [0, n / 4, n / 2, 3 * n / 4, n][rng.below(5) as usize];
                    (b + rng.below(7) as usize).saturating_sub(3)
                } else {
                    rng.below(len as u64) as usize
                };
                // A cluster: values with short gaps.
                let mut p = at;
                for _ in 0..1 + rng.below(6) {
                    if p < len {
                        v[p] = coef(&mut rng);
                    }
                    p += if rng.below(2) == 0 { 1 } else { 1 + rng.below(8) as usize };
                }
            }
        }
    }
    v
}

/// The two, side by side.
#[derive(Clone)]
struct Pair<R: Rank> {
    p: Poly<R>,
    d: Vec<Fp>,
}

fn horner(d: &[Fp], x: Fp) -> Fp {
    d.iter().rev().fold(Fp::ZERO, |a, c| a * x + *c)
}

struct Caller<'a, R: Rank> {
    regs: Vec<Pair<R>>,
    slots: &'a [Mutex<Arc<Pair<R>>>],
    log: u64,
    counts: std::collections::BTreeMap<&'static str, u64>,
}

type Res = Result<(), (&'static str, String)>;

fn same<R: Rank>(what: &str, x: &Pair<R>) -> Res {
    simrt::quiet(|| {
        let got: Vec<Fp> = x.p.iter_coeffs().collect();
        if got.len() != R::num_coeffs() {
            return Err(("wrong-length", format!("{what}: {} coefficients", got.len())));
        }
        match (0..got.len()).find(|i| got[*i] != x.d[*i]) {
            Some(i) => Err(("wrong-coefficient", format!("{what}: coefficient {i}"))),
            None => Ok(()),
        }
    })
}

impl<R: Rank> Caller<'_, R> {
    fn get(&self, s: Src) -> Arc<Pair<R>> {
        match s {
            Src::Own(i) => Arc::new(self.regs[i as usize % self.regs.len()].clone()),
            Src::Shared(i) => self.slots[i as usize % self.slots.len()].lock().unwrap().clone(),
        }
    }
    fn reg(&mut self, i: u8) -> &mut Pair<R> {
        let n = self.regs.len();
        &mut self.regs[i as usize % n]
    }
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    fn mix(&mut self, f: &Fp) {
        self.log = hash_bytes(self.log, &fe_bytes(f));
    }

    fn step(&mut self, op: &Op) -> Res {
        let n = R::num_coeffs();
        match op {
            Op::Build { dst, seed } => {
                let mut d = layout(*seed, n, n);
                let p = Poly::<R>::from_coeffs(d.clone());
                d.resize(n, Fp::ZERO);
                *self.reg(*dst) = Pair { p, d };
                same("built", self.reg(*dst))
            }
            Op::View { dst, seed, wiring } => {
                let mut rng = Rng::new(*seed);
                let q = R::n();
                let w: Vec<Vec<Fp>> = (0..4).map(|_| layout(rng.next(), q, q)).collect();
                let mut d = vec![Fp::ZERO; n];
                // a, b, c, d of a trace.
                let at = |k: usize, i: usize| match k {
                    0 => 2 * q + i,
                    1 => 2 * q - 1 - i,
                    2 => i,
                    _ => 4 * q - 1 - i,
                };
                for k in 0..4 {
                    let place = if *wiring { [1, 0, 3, 2][k] } else { k };
                    for (i, v) in w[k].iter().enumerate() {
                        d[at(place, i)] = *v;
                    }
                }
                let [a, b, c, dd]: [Vec<Fp>; 4] = w.try_into().unwrap();
                let p = if *wiring {
                    let mut v = sparse::View::<Fp, R, _>::wiring();
                    (v.a, v.b, v.c, v.d) = (a, b, c, dd);
                    v.build()
                } else {
                    let mut v = sparse::View::<Fp, R, _>::trace();
                    (v.a, v.b, v.c, v.d) = (a, b, c, dd);
                    v.build()
                };
                *self.reg(*dst) = Pair { p, d };
                same("from wires", self.reg(*dst))
            }
            Op::Random { dst, seed } => {
                let mut r = crate::pcd::rng(*seed);
                let p = Poly::<R>::random(&mut r);
                let mut r = crate::pcd::rng(*seed);
                let d = (0..n).map(|_| Fp::random(&mut r)).collect();
                *self.reg(*dst) = Pair { p, d };
                same("random", self.reg(*dst))
            }
            Op::Copy { dst, src } => {
                *self.reg(*dst) = (*self.get(*src)).clone();
                same("copied", self.reg(*dst))
            }
            Op::Publish { slot, src } => {
                let x = self.get(Src::Own(*src));
                let n = self.slots.len();
                *self.slots[*slot as usize % n].lock().unwrap() = x;
                Ok(())
            }
            Op::Add { dst, src, ops } => {
                let s = self.get(*src);
                let x = self.reg(*dst);
                if *ops { x.p += &s.p } else { x.p.add_assign(&s.p) }
                x.d.iter_mut().zip(&s.d).for_each(|(a, b)| *a += *b);
                same("sum", x)?;
                same("source of a sum", &s)
            }
            Op::Sub { dst, src, ops } => {
                let s = self.get(*src);
                let x = self.reg(*dst);
                if *ops { x.p -= &s.p } else { x.p.sub_assign(&s.p) }
                x.d.iter_mut().zip(&s.d).for_each(|(a, b)| *a -= *b);
                same("difference", x)
            }
            Op::Cancel { dst, seed } => {
                let mut rng = Rng::new(*seed);
                let x = self.reg(*dst);
                let mut q = vec![Fp::ZERO; n];
                // Whole ranges or every so often.
                match rng.below(3) {
                    0 => {
                        let lo = rng.below(n as u64) as usize;
                        let hi = (lo + 1 + rng.below(24) as usize).min(n);
                        q[lo..hi].copy_from_slice(&x.d[lo..hi]);
                    }
                    1 => {
                        let m = 1 + rng.below(7);
                        for i in 0..n {
                            if rng.below(m) == 0 {
                                q[i] = x.d[i];
                            }
                        }
                    }
                    _ => {
                        // All but a few.
                        q.copy_from_slice(&x.d);
                        for _ in 0..rng.below(4) {
                            q[rng.below(n as u64) as usize] = Fp::ZERO;
                        }
                    }
                }
                x.d.iter_mut().zip(&q).for_each(|(a, b)| *a -= *b);
                x.p.sub_assign(&Poly::<R>::from_coeffs(q));
                same("partly cancelled", x)
            }
            Op::Scale { dst, k } => {
                let k = k.value();
                let x = self.reg(*dst);
                x.p.scale(k);
                x.d.iter_mut().for_each(|a| *a *= k);
                same("scaled", x)
            }
            Op::Negate { dst } => {
                let x = self.reg(*dst);
                x.p.negate();
                x.d.iter_mut().for_each(|a| *a = -*a);
                same("negated", x)
            }
            Op::Dilate { dst, k } => {
                let k = k.value();
                let x = self.reg(*dst);
                x.p.dilate(k);
                let mut z = Fp::ONE;
                for a in x.d.iter_mut() {
                    *a *= z;
                    z *= k;
                }
                same("dilated", x)
            }
            Op::Fold { dst, srcs, k, fail } => {
                let k = k.value();
                let s: Vec<_> = srcs.iter().map(|s| self.get(*s)).collect();
                let fail = fail.map(|f| f as usize).filter(|f| *f < s.len());
                let p = catch_unwind(AssertUnwindSafe(|| {
                    Poly::<R>::fold(
                        s.iter().enumerate().map(|(i, x)| {
                            simrt::yield_point();
                            if Some(i) == fail {
                                std::panic::panic_any("injected-term-panic".to_string());
                            }
                            &x.p
                        }),
                        k,
                    )
                }));
                match p {
                    Ok(p) => {
                        if fail.is_some() {
                            return Err(("fault-swallowed", "a fold went on after its source failed".into()));
                        }
                        let mut d = vec![Fp::ZERO; n];
                        for x in &s {
                            d.iter_mut().zip(&x.d).for_each(|(a, b)| *a = *a * k + *b);
                        }
                        *self.reg(*dst) = Pair { p, d };
                        same("folded", self.reg(*dst))
                    }
                    Err(e) => {
                        let t = panic_text(&*e);
                        if fail.is_none() || t != "injected-term-panic" {
                            return Err(("panic", t));
                        }
                        self.count("fault.term_panic");
                        for x in &s {
                            same("source of a failed fold", x)?;
                        }
                        same("register after a failed fold", self.reg(*dst))
                    }
                }
            }
            Op::Eval { src, k } => {
                let (s, k) = (self.get(*src), k.value());
                let got = s.p.eval(k);
                self.mix(&got);
                self.count("probe.evaluations");
                if got != horner(&s.d, k) {
                    return Err(("wrong-evaluation", format!("{src:?} at {k:?}")));
                }
                // And from the coefficients as the fuse does it.
                if ragu_arithmetic::eval(&s.d, k) != got {
                    return Err(("wrong-evaluation", "plain evaluation".into()));
                }
                Ok(())
            }
            Op::Revdot { a, b } => {
                let (a, b) = (self.get(*a), self.get(*b));
                let got = a.p.revdot(&b.p);
                self.mix(&got);
                self.count("probe.inner_products");
                let want = a.d.iter().zip(b.d.iter().rev()).fold(Fp::ZERO, |s, (x, y)| s + *x * *y);
                if got != want || ragu_arithmetic::dot(a.d.iter(), b.d.iter().rev()) != want {
                    return Err(("wrong-inner-product", "reversed inner product".into()));
                }
                let short = ragu_arithmetic::low_u64(&got) as usize;
                if short % 16 != 0 {
                    return Ok(());
                }
                let (a, b, short) = (&a.d, &b.d[1 + short / 16 % 3..], short / 64 % 2 == 0);
                let r = catch_unwind(AssertUnwindSafe(|| match short {
                    true => ragu_arithmetic::dot(a.iter(), b.iter()),
                    false => ragu_arithmetic::dot(b.iter(), a.iter()),
                }));
                self.count("fault.unequal_lengths");
                match r {
                    Err(_) => Ok(()),
                    Ok(_) => Err(("misuse-accepted", "an inner product of vectors of different lengths".into())),
                }
            }
            Op::Coeffs { src, seed } => {
                let s = self.get(*src);
                let mut rng = Rng::new(*seed);
                let (mut lo, mut hi) = (0usize, n);
                let mut it = s.p.iter_coeffs();
                let bias = rng.below(5);
                self.count("probe.two_ended_reads");
                loop {
                    if it.len() != hi - lo {
                        return Err(("wrong-length", format!("{} left, said {}", hi - lo, it.len())));
                    }
                    let (want, got) = match rng.below(16) {
                        0 => {
                            let k = rng.below(20) as usize;
                            let w = (lo + k < hi).then(|| s.d[lo + k]);
                            lo = (lo + k + 1).min(hi);
                            (w, it.nth(k))
                        }
                        1 => {
                            let k = rng.below(20) as usize;
                            let w = (lo + k < hi).then(|| s.d[hi - 1 - k]);
                            hi = hi.saturating_sub(k + 1).max(lo);
                            (w, it.nth_back(k))
                        }
                        _ if rng.below(4) < bias => {
                            let w = (lo < hi).then(|| s.d[lo]);
                            lo = (lo + 1).min(hi);
                            (w, it.next())
                        }
                        _ => {
                            let w = (lo < hi).then(|| s.d[hi - 1]);
                            hi = hi.saturating_sub(1).max(lo);
                            (w, it.next_back())
                        }
                    };
                    if got != want {
                        return Err(("wrong-coefficient", format!("read between {lo} and {hi}")));
                    }
                    if want.is_none() {
                        return Ok(());
                    }
                }
            }
            Op::Commit { src, affine } => {
                let s = self.get(*src);
                let g = ragu_pasta::Pasta::host_generators(crate::gad::params());
                let got: Eq = if *affine {
                    s.p.commit_to_affine::<EqAffine>(g).into()
                } else {
                    let c = s.p.commit::<EqAffine>(g);
                    let [a, b] = ragu_arithmetic::batch_to_affine::<EqAffine, 2>([c, c.double()]);
                    if Eq::from(a) != c || Eq::from(b) != c.double() {
                        return Err(("wrong-normalisation", "batch of two commitments".into()));
                    }
                    c
                };
                self.count("probe.commitments");
                let live = s.d.iter().filter(|c| **c != Fp::ZERO).count();
                simrt::quiet(|| {
                    let want = if live <= 40 {
                        let mut sum = Eq::identity();
                        for (c, g) in s.d.iter().zip(g.g()) {
                            if *c != Fp::ZERO {
                                sum += *g * *c;
                            }
                        }
                        sum
                    } else {
                        // Too many for one by one: the kernel itself (C03) over
                        // the plain vector.
                        ragu_arithmetic::mul::<EqAffine, _, _>(s.d.iter(), g.g()[..n].iter())
                    };
                    if got != want {
                        return Err(("wrong-commitment", format!("{live} coefficients")));
                    }
                    Ok(())
                })?;
                self.log = hash_bytes(self.log, format!("{:?}", got.to_affine()).as_bytes());
                Ok(())
            }
            Op::Fft { srcs, k, inverse, keep } => {
                let m = 1usize << k;
                let s: Vec<_> = srcs.iter().map(|s| self.get(*s)).collect();
                let mut v: Vec<Poly<R>> = (0..m)
                    .map(|i| if i < s.len() { s[i].p.clone() } else { Poly::<R>::new() })
                    .collect();
                let dom = Domain::<Fp>::new(*k as u32);
                if *inverse { dom.ring_ifft::<Poly<R>>(&mut v) } else { dom.ring_fft::<Poly<R>>(&mut v) }
                self.count("probe.polynomial_transforms");
                let w = if *inverse { root(*k as u32).invert().unwrap() } else { root(*k as u32) };
                let scale = if *inverse { Fp::from(m as u64).invert().unwrap() } else { Fp::ONE };
                let mut wi = Fp::ONE;
                let mut kept = None;
                for (i, p) in v.into_iter().enumerate() {
                    let mut d = vec![Fp::ZERO; n];
                    simrt::quiet(|| {
                        let mut f = scale;
                        for x in &s {
                            d.iter_mut().zip(&x.d).for_each(|(a, b)| {
                                if *b != Fp::ZERO {
                                    *a += f * *b
                                }
                            });
                            f *= wi;
                        }
                    });
                    wi *= w;
                    let x = Pair { p, d };
                    same("transformed", &x)?;
                    if keep.is_some_and(|(_, j)| j as usize % m == i) {
                        kept = Some(x);
                    }
                }
                if let (Some((dst, _)), Some(x)) = (keep, kept) {
                    *self.reg(*dst) = x;
                }
                Ok(())
            }
            Op::Factor { dst, src, k, lazy } => {
                let (s, b) = (self.get(*src), k.value());
                let q: Vec<Fp> = if *lazy {
                    let mut q: Vec<Fp> = factor_iter(s.p.iter_coeffs(), b).collect();
                    q.reverse();
                    q
                } else {
                    factor(s.p.iter_coeffs(), b)
                };
                self.count("probe.quotients");
                // (X - b) q + p(b) = p
                if q.len() != n - 1 {
                    return Err(("wrong-length", format!("quotient of {} coefficients", q.len())));
                }
                let mut back = vec![Fp::ZERO; n];
                for (i, c) in q.iter().enumerate() {
                    back[i + 1] += *c;
                    back[i] -= *c * b;
                }
                back[0] += horner(&s.d, b);
                if back != s.d {
                    return Err(("wrong-quotient", "quotient by a linear factor".into()));
                }
                let mut d = q.clone();
                d.push(Fp::ZERO);
                *self.reg(*dst) = Pair { p: Poly::<R>::from_coeffs(q), d };
                same("quotient", self.reg(*dst))
            }
            Op::Tz { dst, k } | Op::Tx { dst, k } => {
                let v = k.value();
                let q = R::n();
                let mut d = vec![Fp::ZERO; n];
                // -sum_i x^{4n-1-i} (z^{2n-1-i} + z^{2n+i})
                let pw: Vec<Fp> = std::iter::successors(Some(Fp::ONE), |p| Some(*p * v)).take(4 * q).collect();
                let p = if matches!(op, Op::Tz { .. }) {
                    for i in 0..q {
                        d[4 * q - 1 - i] = -(pw[2 * q - 1 - i] + pw[2 * q + i]);
                    }
                    R::tz::<Fp>(v)
                } else {
                    for i in 0..q {
                        d[2 * q - 1 - i] -= pw[4 * q - 1 - i];
                        d[2 * q + i] -= pw[4 * q - 1 - i];
                    }
                    R::tx::<Fp>(v)
                };
                *self.reg(*dst) = Pair { p, d };
                same("t", self.reg(*dst))
            }
            Op::Txz { x, z } => {
                let (x, z) = (x.value(), z.value());
                let got = R::txz(x, z);
                let want = simrt::quiet(|| {
                    let q = R::n();
                    let px: Vec<Fp> = std::iter::successors(Some(Fp::ONE), |p| Some(*p * x)).take(4 * q).collect();
                    let pz: Vec<Fp> = std::iter::successors(Some(Fp::ONE), |p| Some(*p * z)).take(4 * q).collect();
                    -(0..q).fold(Fp::ZERO, |s, i| s + px[4 * q - 1 - i] * (pz[2 * q - 1 - i] + pz[2 * q + i]))
                });
                self.mix(&got);
                if got != want {
                    return Err(("wrong-t", format!("t at {x:?}, {z:?}")));
                }
                Ok(())
            }
            Op::Ell { k, x, amount, src } => {
                let dom = Domain::<Fp>::new(*k as u32);
                let m = dom.n();
                if m != 1 << k || dom.log2_n() != *k as u32 || dom.omega() != root(*k as u32) {
                    return Err(("wrong-domain", format!("domain of 2^{k}")));
                }
                for i in 0..m as u32 {
                    let want = (0..*k as u32).fold(0, |a, b| a | (i >> b & 1) << (*k as u32 - 1 - b));
                    if bitreverse(i, *k as u32) != want {
                        return Err(("wrong-domain", format!("{i} reversed in {k} bits")));
                    }
                }
                let x = x.value();
                let inside = {
                    let mut w = Fp::ONE;
                    (0..m).any(|_| {
                        let hit = w == x;
                        w *= dom.omega();
                        hit
                    })
                };
                if dom.contains(x) != inside {
                    return Err(("wrong-domain", format!("{x:?} in 2^{k}")));
                }
                let amount = *amount as usize % (m + 1);
                match dom.ell(x, amount) {
                    None if inside => Ok(()),
                    None => Err(("wrong-weights", "no weights outside the domain".into())),
                    Some(_) if inside => Err(("wrong-weights", "weights inside the domain".into())),
                    Some(l) => {
                        if l.len() != amount {
                            return Err(("wrong-weights", format!("{} of {amount}", l.len())));
                        }
                        // Values at the first points and zero elsewhere.
                        let s = self.get(*src);
                        let mut vals: Vec<Fp> = (0..m).map(|i| if i < amount { s.d[i % n] } else { Fp::ZERO }).collect();
                        let got = l.iter().zip(&vals).fold(Fp::ZERO, |a, (l, v)| a + *l * *v);
                        dom.ifft(&mut vals);
                        self.count("probe.interpolations");
                        if horner(&vals, x) != got {
                            return Err(("wrong-weights", format!("{amount} of 2^{k}")));
                        }
                        Ok(())
                    }
                }
            }
            Op::Geosum { k, m } => {
                let k = k.value();
                let got = geosum(k, *m as usize);
                let mut want = Fp::ZERO;
                let mut p = Fp::ONE;
                for _ in 0..*m {
                    want += p;
                    p *= k;
                }
                if got != want {
                    return Err(("wrong-sum", format!("{m} powers")));
                }
                Ok(())
            }
            Op::TooLong { by, seed, view } => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let extra = 1 + *by as usize;
                    if *view {
                        let mut v = sparse::View::<Fp, R, _>::trace();
                        let w = vec![Fp::from(*seed); R::n() + extra];
                        match by % 4 {
                            0 => v.a = w,
                            1 => v.b = w,
                            2 => v.c = w,
                            _ => v.d = w,
                        }
                        v.build()
                    } else {
                        Poly::<R>::from_coeffs(vec![Fp::from(*seed); n + extra])
                    }
                }));
                self.count("fault.too_long");
                match r {
                    Err(_) => Ok(()),
                    Ok(_) => Err(("misuse-accepted", "more coefficients than there is room for".into())),
                }
            }
        }
    }
}

fn run<R: Rank>(case: &Case) -> Outcome {
    let mut o = Outcome::default();
    let zero = || Pair::<R> { p: Poly::<R>::default(), d: vec![Fp::ZERO; R::num_coeffs()] };
    let slots: Vec<Mutex<Arc<Pair<R>>>> = (0..case.slots.max(1)).map(|_| Mutex::new(Arc::new(zero()))).collect();
    let got = Mutex::new(Vec::new());
    let clients: Vec<Box<dyn FnOnce() + Send + '_>> = case
        .clients
        .iter()
        .enumerate()
        .map(|(c, ops)| {
            let (got, slots) = (&got, &slots);
            Box::new(move || {
                let mut me = Caller::<R> {
                    regs: (0..case.regs.max(1)).map(|_| zero()).collect(),
                    slots,
                    log: 0,
                    counts: Default::default(),
                };
                let mut bad = vec![];
                for (j, op) in ops.iter().enumerate() {
                    me.log = hash2(me.log, j as u64);
                    simrt::yield_point();
                    match catch_unwind(AssertUnwindSafe(|| me.step(op))) {
                        Ok(Ok(())) => {}
                        Ok(Err((class, d))) => {
                            bad.push((class, format!("caller {c}, operation {j}: {d}")));
                            break;
                        }
                        Err(p) => {
                            bad.push(("panic", format!("caller {c}, operation {j}: {}", panic_text(&*p))));
                            break;
                        }
                    }
                }
                // At the end every register still means what it should, each
                // alone and against every other.
                if bad.is_empty() {
                    let r = catch_unwind(AssertUnwindSafe(|| -> Res {
                        let x = Fp::from(0x1234_5677_u64) * Fp::MULTIPLICATIVE_GENERATOR;
                        for i in 0..me.regs.len() as u8 {
                            me.step(&Op::Eval { src: Src::Own(i), k: K::Any(17) })?;
                            for j in 0..me.regs.len() as u8 {
                                me.step(&Op::Revdot { a: Src::Own(i), b: Src::Own(j) })?;
                            }
                        }
                        let _ = x;
                        Ok(())
                    }));
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err((class, d))) => bad.push((class, format!("caller {c}, at the end: {d}"))),
                        Err(p) => bad.push(("panic", format!("caller {c}, at the end: {}", panic_text(&*p)))),
                    }
                }
                for r in &me.regs {
                    for (i, v) in r.d.iter().enumerate().filter(|(_, v)| **v != Fp::ZERO).take(8) {
                        me.log = hash2(me.log, hash_bytes(i as u64, &fe_bytes(v)));
                    }
                }
                got.lock().unwrap().push((me.log, bad, me.counts));
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let (rep, panics) = simrt::run(case.sim.config(), clients);
    o.absorb_report(&rep);
    o.decisions = rep.decisions.clone();
    for p in panics.into_iter().flatten() {
        o.fail("panic", panic_text(&*p));
    }
    for (h, bad, counts) in got.into_inner().unwrap() {
        o.mix(h);
        o.distinct.push(h);
        for (class, d) in bad {
            o.fail(class, d);
        }
        for (k, n) in counts {
            o.count(k, n);
        }
    }
    o.count("probe.operations", case.clients.iter().map(|c| c.len() as u64).sum());
    o.nontrivial = case.clients.iter().any(|c| c.len() > 2);
    o
}

impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn budget(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 35 } else { 1500 }
    }
    fn rule(&self) -> &'static str {
        "a seed draws 1-3 concurrent callers, each a history of 3-30 operations (construction from coefficients with runs and gaps or from wire buffers, sums, differences, partial cancellations, scalings, dilations, folds whose source may fail, quotients, transforms over polynomials, commitments, inner products, reads from both ends) on own and shared polynomials of both ranks, on a pool of 1-64 simulated workers; every polynomial is compared with a plain vector after every operation; non-trivial with more than two operations; distinct by the values the history produced"
    }
    fn warm(&self) {
        crate::gad::params();
    }
    fn generate(&self, seed: u64, _tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let big = rng.below(6) == 0;
        let regs = 2 + rng.below(4) as u8;
        let slots = 1 + rng.below(3) as u8;
        let src = |rng: &mut Rng| {
            if rng.below(4) == 0 { Src::Shared(rng.below(slots as u64) as u8) } else { Src::Own(rng.below(regs as u64) as u8) }
        };
        let nc = [1, 1, 2, 3][rng.below(4) as usize];
        let clients = (0..nc)
            .map(|_| {
                let len = 3 + rng.below(if big { 10 } else { 28 });
                let mut ops: Vec<Op> = (0..regs)
                    .map(|dst| {
                        if rng.below(3) == 0 {
                            Op::View { dst, seed: rng.next(), wiring: rng.below(2) == 0 }
                        } else {
                            Op::Build { dst, seed: rng.next() }
                        }
                    })
                    .collect();
                for _ in 0..len {
                    let rng = &mut rng;
                    let dst = rng.below(regs as u64) as u8;
                    ops.push(match rng.below(40) {
                        0..=2 => Op::Build { dst, seed: rng.next() },
                        3 => Op::View { dst, seed: rng.next(), wiring: rng.below(2) == 0 },
                        4 => {
                            if rng.below(2) == 0 {
                                Op::Random { dst, seed: rng.next() }
                            } else {
                                Op::Copy { dst, src: src(rng) }
                            }
                        }
                        5 | 6 => Op::Publish { slot: rng.below(slots as u64) as u8, src: dst },
                        7..=11 => Op::Add { dst, src: src(rng), ops: rng.below(3) == 0 },
                        12..=15 => Op::Sub { dst, src: src(rng), ops: rng.below(3) == 0 },
                        16..=18 => Op::Cancel { dst, seed: rng.next() },
                        19 | 20 => Op::Scale { dst, k: K::draw(rng) },
                        21 => Op::Negate { dst },
                        22 | 23 => Op::Dilate { dst, k: K::draw(rng) },
                        24 | 25 => {
                            let n = rng.below(6);
                            Op::Fold {
                                dst,
                                srcs: (0..n).map(|_| src(rng)).collect(),
                                k: K::draw(rng),
                                fail: (rng.below(4) == 0).then(|| rng.below(6) as u8),
                            }
                        }
                        26 | 27 => Op::Eval { src: src(rng), k: K::draw(rng) },
                        28 | 29 => Op::Revdot { a: src(rng), b: src(rng) },
                        30 | 31 => Op::Coeffs { src: src(rng), seed: rng.next() },
                        32 => Op::Commit { src: src(rng), affine: rng.below(2) == 0 },
                        33 => {
                            let k = rng.below(if big { 3 } else { 5 }) as u8;
                            let n = rng.below((1 << k) + 1);
                            Op::Fft {
                                srcs: (0..n).map(|_| src(rng)).collect(),
                                k,
                                inverse: rng.below(2) == 0,
                                keep: (rng.below(2) == 0).then(|| (dst, rng.below(32) as u8)),
                            }
                        }
                        34 | 35 => Op::Factor { dst, src: src(rng), k: K::draw(rng), lazy: rng.below(2) == 0 },
                        36 => {
                            if rng.below(2) == 0 {
                                Op::Tz { dst, k: K::draw(rng) }
                            } else {
                                Op::Tx { dst, k: K::draw(rng) }
                            }
                        }
                        37 => Op::Txz { x: K::draw(rng), z: K::draw(rng) },
                        38 => Op::Ell { k: rng.below(8) as u8, x: K::draw(rng), amount: rng.below(300) as u16, src: src(rng) },
                        _ => match rng.below(3) {
                            0 => Op::TooLong { by: rng.below(5) as u8, seed: rng.below(3), view: rng.below(2) == 0 },
                            _ => Op::Geosum { k: K::draw(rng), m: rng.below(300) as u16 },
                        },
                    });
                }
                ops
            })
            .collect();
        serde_json::to_value(Case { sim: SimCase::draw(&mut rng), big, regs, slots, clients }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).expect("case");
        if case.big { run::<ProductionRank>(&case) } else { run::<TestRank>(&case) }
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = shrink_sim(case);
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let mut add = |d: Case| v.push(serde_json::to_value(d).unwrap());
        if c.big {
            let mut d = c.clone();
            d.big = false;
            add(d);
        }
        for i in 0..c.clients.len() {
            if c.clients.len() > 1 {
                let mut d = c.clone();
                d.clients.remove(i);
                add(d);
            }
            for j in 0..c.clients[i].len() {
                let mut d = c.clone();
                d.clients[i].remove(j);
                add(d);
            }
        }
        v
    }
}
