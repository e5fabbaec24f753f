//! Parallel numeric kernels equal their definition on every schedule.

use crate::engine::*;
use crate::props::c01::field;
use ff::{Field, PrimeField};
use group::{Curve, Group, prime::PrimeCurveAffine};
use pasta_curves::{Ep, EpAffine, Eq, EqAffine};
use ragu_arithmetic::{Domain, Ring, mul, poly_with_roots};
use ragu_pasta::{Fp, Fq};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::Rng;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Forward or inverse transform of 2^k field elements.
    Fft { k: u32, seed: u64, inverse: bool },
    /// The same over a module of vectors whose operations yield, with an
    /// optional panic at the n-th module operation.
    Module { k: u32, seed: u64, inverse: bool, panic_at: Option<u64> },
    /// Multiscalar multiplication of n pairs on one of the two curves.
    Msm { n: usize, seed: u64, kind: u8, pallas: bool },
    /// Monic polynomial with n given roots.
    Roots { n: usize, seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub clients: Vec<Vec<Op>>,
}

pub struct C03;

static MODULE_OPS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Default)]
struct V {
    v: [Fp; 2],
    /// Module operations left before the injected panic; 0 = none.
    fuse: Option<std::sync::Arc<AtomicU64>>,
}
struct VRing;
fn tick(a: &V) {
    MODULE_OPS.fetch_add(1, Ordering::Relaxed);
    simrt::yield_point();
    if let Some(f) = &a.fuse {
        if f.fetch_sub(1, Ordering::SeqCst) == 1 {
            std::panic::panic_any("injected-module-panic".to_string());
        }
    }
}
impl Ring for VRing {
    type R = V;
    type F = Fp;
    fn scale_assign(r: &mut V, by: Fp) {
        tick(r);
        for x in &mut r.v {
            *x *= by;
        }
    }
    fn add_assign(r: &mut V, o: &V) {
        tick(r);
        for (x, y) in r.v.iter_mut().zip(&o.v) {
            *x += *y;
        }
    }
    fn sub_assign(r: &mut V, o: &V) {
        tick(r);
        for (x, y) in r.v.iter_mut().zip(&o.v) {
            *x -= *y;
        }
    }
}

fn dft<F: PrimeField>(x: &[F], k: u32, inverse: bool) -> Vec<F> {
    // The definition, from the field's own root of unity.
    let n = x.len();
    let mut w = if inverse { F::ROOT_OF_UNITY_INV } else { F::ROOT_OF_UNITY };
    for _ in k..F::S {
        w = w.square();
    }
    let ninv = F::from(n as u64).invert().unwrap();
    let mut out = Vec::with_capacity(n);
    let mut p = F::ONE;
    for _ in 0..n {
        let mut acc = F::ZERO;
        for c in x.iter().rev() {
            acc = acc * p + *c;
        }
        out.push(if inverse { acc * ninv } else { acc });
        p *= w;
    }
    out
}

fn fp(rng: &mut Rng) -> Fp {
    match rng.below(8) {
        0 => Fp::ZERO,
        1 => Fp::ONE,
        2 => -Fp::ONE,
        _ => field(rng),
    }
}

fn fq(rng: &mut Rng) -> Fq {
    let mut f = Fq::from(rng.next());
    for _ in 0..3 {
        f = f * Fq::from(u64::MAX) + Fq::from(rng.next());
    }
    f
}

/// Points with known discrete logarithms.
fn table_p() -> &'static Vec<(Fq, EpAffine)> {
    static T: OnceLock<Vec<(Fq, EpAffine)>> = OnceLock::new();
    T.get_or_init(|| {
        let mut rng = Rng::new(99);
        let g = Ep::generator();
        (0..61)
            .map(|i| {
                let k = if i == 0 { Fq::ZERO } else { fq(&mut rng) };
                (k, (g * k).to_affine())
            })
            .collect()
    })
}
fn table_v() -> &'static Vec<(Fp, EqAffine)> {
    static T: OnceLock<Vec<(Fp, EqAffine)>> = OnceLock::new();
    T.get_or_init(|| {
        let mut rng = Rng::new(98);
        let g = Eq::generator();
        (0..61)
            .map(|i| {
                let k = if i == 0 { Fp::ZERO } else { field(&mut rng) };
                (k, (g * k).to_affine())
            })
            .collect()
    })
}

fn scalar<F: PrimeField>(rng: &mut Rng, kind: u8, full: impl Fn(&mut Rng) -> F) -> F {
    match kind {
        0 => full(rng),
        1 => F::from(rng.below(4)),
        2 => -F::from(rng.below(4)),
        3 => F::from(1u64 << rng.below(63)) * F::from(1u64 << rng.below(63)),
        _ => match rng.below(4) {
            0 => F::ZERO,
            1 => F::ONE,
            2 => -F::ONE,
            _ => full(rng),
        },
    }
}

/// Runs `op` (the code under test); returns a mismatch description.
fn run_op(op: &Op) -> (Result<Result<u64, String>, String>, bool) {
    let expect_panic = matches!(op, Op::Module { panic_at: Some(_), .. });
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        Op::Fft { k, seed, inverse } => {
            let mut rng = Rng::new(*seed);
            let x: Vec<Fp> = (0..1usize << k).map(|_| fp(&mut rng)).collect();
            let want = simrt::quiet(|| dft(&x, *k, *inverse));
            let d = Domain::<Fp>::new(*k);
            let mut y = x.clone();
            if *inverse { d.ifft(&mut y) } else { d.fft(&mut y) }
            if y != want {
                return Err(format!("transform of 2^{k} elements (inverse={inverse}) is wrong"));
            }
            if *inverse { d.fft(&mut y) } else { d.ifft(&mut y) }
            if y != x {
                return Err(format!("round trip over 2^{k} elements is wrong"));
            }
            Ok(hash_bytes(0, &want[want.len() - 1].to_repr()))
        }
        Op::Module { k, seed, inverse, panic_at } => {
            let mut rng = Rng::new(*seed);
            let n = 1usize << k;
            let fuse = panic_at.map(|p| std::sync::Arc::new(AtomicU64::new(1 + p)));
            let x: Vec<[Fp; 2]> = (0..n).map(|_| [fp(&mut rng), fp(&mut rng)]).collect();
            let mut y: Vec<V> = x.iter().map(|v| V { v: *v, fuse: fuse.clone() }).collect();
            let d = Domain::<Fp>::new(*k);
            if *inverse { d.ring_ifft::<VRing>(&mut y) } else { d.ring_fft::<VRing>(&mut y) }
            for j in 0..2 {
                let col: Vec<Fp> = x.iter().map(|v| v[j]).collect();
                let want = simrt::quiet(|| dft(&col, *k, *inverse));
                if y.iter().map(|v| v.v[j]).ne(want.iter().copied()) {
                    return Err(format!("module transform of 2^{k} elements (inverse={inverse}) is wrong"));
                }
            }
            Ok(hash_bytes(0, &y[n - 1].v[0].to_repr()))
        }
        Op::Msm { n, seed, kind, pallas } => {
            let mut rng = Rng::new(*seed);
            if *pallas {
                let t = table_p();
                let (mut a, mut b, mut s) = (vec![], vec![], Fq::ZERO);
                for _ in 0..*n {
                    let c = scalar(&mut rng, *kind, fq);
                    let (k, p) = t[rng.below(61) as usize];
                    s += c * k;
                    a.push(c);
                    b.push(p);
                }
                let got: Ep = mul::<EpAffine, _, _>(a.iter(), b.iter());
                let want = simrt::quiet(|| Ep::generator() * s);
                if got != want {
                    return Err(format!("multiscalar product of {n} pairs is wrong"));
                }
                Ok(hash_bytes(0, &s.to_repr()))
            } else {
                let t = table_v();
                let (mut a, mut b, mut s) = (vec![], vec![], Fp::ZERO);
                for _ in 0..*n {
                    let c = scalar(&mut rng, *kind, field);
                    let (k, p) = t[rng.below(61) as usize];
                    s += c * k;
                    a.push(c);
                    b.push(p);
                }
                let got: Eq = mul::<EqAffine, _, _>(a.iter(), b.iter());
                let want = simrt::quiet(|| Eq::generator() * s);
                if got != want {
                    return Err(format!("multiscalar product of {n} pairs is wrong"));
                }
                Ok(hash_bytes(0, &s.to_repr()))
            }
        }
        Op::Roots { n, seed } => {
            let mut rng = Rng::new(*seed);
            let roots: Vec<Fp> = (0..*n).map(|_| fp(&mut rng)).collect();
            let got = poly_with_roots(&roots);
            let want = simrt::quiet(|| {
                let mut p = vec![Fp::ONE];
                for r in &roots {
                    let mut q = vec![Fp::ZERO; p.len() + 1];
                    for (i, c) in p.iter().enumerate() {
                        q[i + 1] += *c;
                        q[i] -= *c * *r;
                    }
                    p = q;
                }
                p
            });
            if got != want {
                return Err(format!("polynomial with {n} roots is wrong"));
            }
            Ok(hash_bytes(0, &got[0].to_repr()))
        }
    }));
    (r.map_err(|p| panic_text(&*p)), expect_panic)
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn budget(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 35 } else { 1500 }
    }
    fn rule(&self) -> &'static str {
        "a seed draws 1-3 concurrent callers of transforms (2^0..2^9 field elements or yielding module elements, some with a panic injected at a chosen module operation), multiscalar products (0..~3000 pairs incl. identity bases, zero/small/negated scalars, both curves) and root-product polynomials, on a pool of 1-64 simulated workers; non-trivial when tasks were stolen or preempted; distinct by schedule hash"
    }
    fn warm(&self) {
        table_p();
        table_v();
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let nc = [1, 1, 2, 3][rng.below(4) as usize];
        let clients = (0..nc)
            .map(|_| {
                (0..1 + rng.below(2))
                    .map(|_| {
                        let seed = rng.next();
                        match rng.below(8) {
                            0..=2 => Op::Fft {
                                k: rng.below(if tier == Tier::Thorough { 11 } else { 9 }) as u32,
                                seed,
                                inverse: rng.below(2) == 1,
                            },
                            3 | 4 => {
                                let k = rng.below(7) as u32;
                                let total = (1u64 << k) * k as u64 * 2;
                                Op::Module {
                                    k,
                                    seed,
                                    inverse: rng.below(2) == 1,
                                    panic_at: (total > 0 && rng.below(3) == 0).then(|| rng.below(total.max(1))),
                                }
                            }
                            5 | 6 => Op::Msm {
                                n: match rng.below(8) {
                                    0 => rng.below(4) as usize,
                                    1..=3 => rng.below(32) as usize,
                                    4 | 5 => 20 + rng.below(160) as usize,
                                    6 => rng.below(500) as usize,
                                    // Wide windows.
                                    _ if rng.chance(1, 24) => 8000 + rng.below(17000) as usize,
                                    _ => rng.below(if tier == Tier::Thorough { 9000 } else { 3200 }) as usize,
                                },
                                seed,
                                kind: rng.below(5) as u8,
                                pallas: rng.below(2) == 1,
                            },
                            _ => Op::Roots { n: rng.below(120) as usize, seed },
                        }
                    })
                    .collect()
            })
            .collect();
        let mut sim = SimCase::draw(&mut rng);
        if rng.below(6) == 0 {
            sim.workers = [16, 32, 64][rng.below(3) as usize];
        }
        serde_json::to_value(Case { sim, clients }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).expect("case");
        let mut o = Outcome::default();
        let got = Mutex::new(Vec::new());
        let clients: Vec<Box<dyn FnOnce() + Send + '_>> = case
            .clients
            .iter()
            .enumerate()
            .map(|(c, ops)| {
                let got = &got;
                Box::new(move || {
                    for (j, op) in ops.iter().enumerate() {
                        let r = run_op(op);
                        got.lock().unwrap().push((c, j, op, r, false));
                        if let Op::Module { panic_at: Some(_), k, seed, inverse } = op {
                            let again = Op::Module { panic_at: None, k: *k, seed: *seed, inverse: *inverse };
                            let r = run_op(&again);
                            got.lock().unwrap().push((c, j, op, r, true));
                        }
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let (rep, panics) = simrt::run(case.sim.config(), clients);
        o.absorb_report(&rep);
        o.decisions = rep.decisions.clone();
        for p in panics.into_iter().flatten() {
            o.fail("panic", panic_text(&*p));
        }
        for (c, j, op, (r, expect_panic), retry) in got.into_inner().unwrap() {
            match op {
                Op::Fft { .. } => o.count("probe.transforms", 1),
                Op::Module { .. } => o.count("probe.module_transforms", 1),
                Op::Msm { .. } => o.count("probe.multiscalar_products", 1),
                Op::Roots { .. } => o.count("probe.root_polynomials", 1),
            }
            match r {
                Ok(Ok(h)) => o.mix(h),
                Ok(Err(e)) => o.fail("wrong-result", format!("caller {c}, call {j}{}: {e}", if retry { " (retry)" } else { "" })),
                Err(p) if expect_panic && p == "injected-module-panic" => {
                    o.count("fault.module_panic", 1);
                    o.mix(7);
                }
                Err(p) => o.fail("spurious-panic", format!("caller {c}, call {j}: {p}")),
            }
        }
        o.nontrivial = rep.preemptions > 0 || rep.steals > 0;
        o.distinct.push(rep.schedule_hash);
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = shrink_sim(case);
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let mut add = |d: Case| v.push(serde_json::to_value(d).unwrap());
        for i in 0..c.clients.len() {
            if c.clients.len() > 1 {
                let mut d = c.clone();
                d.clients.remove(i);
                add(d);
            }
            for j in 0..c.clients[i].len() {
                if c.clients[i].len() > 1 {
                    let mut d = c.clone();
                    d.clients[i].remove(j);
                    add(d);
                }
                let mut d = c.clone();
                let smaller = match &mut d.clients[i][j] {
                    Op::Fft { k, .. } | Op::Module { k, .. } if *k > 0 => {
                        *k -= 1;
                        true
                    }
                    Op::Msm { n, .. } | Op::Roots { n, .. } if *n > 0 => {
                        *n = *n * 3 / 4;
                        true
                    }
                    _ => false,
                };
                if smaller {
                    add(d);
                }
            }
        }
        v
    }
}
