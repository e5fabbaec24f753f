//! Simulated circuit programs: random trees of routines over random arithmetic,
//! whose witness closures are yield points and fault points.

use ff::Field;
use ragu_arithmetic::Coeff;
use ragu_circuits::{Circuit, WithAux};
use ragu_core::{
    Error, Result,
    drivers::{Driver, DriverValue},
    gadgets::{Bound, Kind},
    maybe::Maybe,
    routines::{Prediction, Routine},
};
use ragu_pasta::Fp;
use ragu_primitives::{
    Element,
    vec::{CollectFixed, ConstLen, FixedVec},
};
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Node {
    /// Whether `predict` returns `Known`.
    pub known: bool,
    /// Routine shape: 0 element -> element, 1 three elements -> two,
    /// 2 unit -> element.
    pub shape: u8,
    /// Distinct Rust type tag (0..3) so floor plans see different identities.
    pub ty: u8,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Alloc(u64),
    Gate(u64, u64),
    Mul(u8, u8),
    Square(u8),
    Add(u8, u8),
    Sub(u8, u8),
    Scale(u8, u64),
    Const(u64),
    IsZero(u8),
    EnforceSame(u8),
    Call(Box<Node>, u8, u8, u8),
}

/// Size limits for generated programs.
pub struct Shape {
    pub max_depth: u32,
    pub max_nodes: u32,
    pub max_ops: u32,
    pub known_pct: u64,
}

pub fn gen_node(rng: &mut Rng, sh: &Shape, depth: u32, left: &mut u32) -> Node {
    let n = 1 + rng.below(sh.max_ops as u64) as usize;
    let mut ops = Vec::new();
    for _ in 0..n {
        let r = |rng: &mut Rng| rng.below(16) as u8;
        let op = match rng.below(16) {
            0 | 1 => Op::Alloc(rng.below(1000)),
            2 => Op::Gate(rng.below(50), rng.below(50)),
            3 => Op::Mul(r(rng), r(rng)),
            4 => Op::Square(r(rng)),
            5 => Op::Add(r(rng), r(rng)),
            6 => Op::Sub(r(rng), r(rng)),
            7 => Op::Scale(r(rng), rng.below(9)),
            8 => Op::Const(rng.below(5)),
            9 => Op::IsZero(r(rng)),
            10 => Op::EnforceSame(r(rng)),
            _ if depth < sh.max_depth && *left > 0 => {
                *left -= 1;
                let child = gen_node(rng, sh, depth + 1, left);
                Op::Call(Box::new(child), r(rng), r(rng), r(rng))
            }
            _ => Op::Alloc(rng.below(1000)),
        };
        ops.push(op);
    }
    Node {
        known: rng.below(100) < sh.known_pct,
        shape: rng.below(3) as u8,
        ty: rng.below(3) as u8,
        ops,
    }
}

impl Node {
    /// Number of routine nodes below this one, and how many are `Known`.
    pub fn census(&self) -> (u64, u64) {
        let mut t = (0, 0);
        for op in &self.ops {
            if let Op::Call(c, ..) = op {
                let (a, b) = c.census();
                t.0 += 1 + a;
                t.1 += c.known as u64 + b;
            }
        }
        t
    }

    /// Plain evaluation: the reference model.
    pub fn eval(&self, input: &[Fp]) -> (Fp, Fp) {
        let mut regs: Vec<Fp> = input.to_vec();
        if regs.is_empty() {
            regs.push(Fp::ONE);
        }
        for op in &self.ops {
            let g = |r: &u8| regs[*r as usize % regs.len()];
            let v = match op {
                Op::Alloc(k) => Fp::from(*k),
                Op::Gate(a, b) => Fp::from(*a) * Fp::from(*b),
                Op::Mul(a, b) => g(a) * g(b),
                Op::Square(a) => g(a).square(),
                Op::Add(a, b) => g(a) + g(b),
                Op::Sub(a, b) => g(a) - g(b),
                Op::Scale(a, k) => g(a) * Fp::from(*k),
                Op::Const(k) => Fp::from(*k),
                Op::IsZero(a) => Fp::from(bool::from(g(a).is_zero()) as u64),
                Op::EnforceSame(a) => g(a),
                Op::Call(n, a, b, c) => match n.shape {
                    0 => n.eval(&[g(a)]).0,
                    1 => {
                        let (x, y) = n.eval(&[g(a), g(b), g(c)]);
                        x + y
                    }
                    _ => n.eval(&[]).0,
                },
            };
            regs.push(v);
        }
        let n = regs.len();
        (regs[n - 1], regs[n / 2])
    }

    /// All single-deletion shrinks of the program.
    pub fn shrinks(&self) -> Vec<Node> {
        let mut v = Vec::new();
        for i in 0..self.ops.len() {
            if self.ops.len() > 1 {
                let mut n = self.clone();
                n.ops.remove(i);
                v.push(n);
            }
            if let Op::Call(c, a, b, d) = &self.ops[i] {
                for s in c.shrinks() {
                    let mut n = self.clone();
                    n.ops[i] = Op::Call(Box::new(s), *a, *b, *d);
                    v.push(n);
                }
            }
        }
        v
    }
}

// ---------------------------------------------------------------------------
// Environment: yield points and fault injection
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FaultKind {
    Error,
    Panic,
}

/// The unique token carried by an injected failure.
#[derive(Debug)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected-{:016x}", self.0)
    }
}
impl std::error::Error for Injected {}

#[derive(Default)]
pub struct Env {
    /// Fault plan by site.
    pub faults: BTreeMap<u64, FaultKind>,
    pub armed: AtomicBool,
    /// Sites seen while armed, in order of first visit.
    pub sites: Mutex<Vec<u64>>,
    pub record_sites: bool,
    /// Tokens of the faults that fired, in order.
    pub fired: Mutex<Vec<(u64, FaultKind)>>,
    /// Witness closures invoked while no witness exists.
    pub stray: AtomicU64,
    pub hits: AtomicU64,
}

impl Env {
    pub fn hit(&self, site: u64) -> Result<()> {
        if !self.armed.load(Ordering::SeqCst) {
            self.stray.fetch_add(1, Ordering::SeqCst);
            return Ok(());
        }
        self.hits.fetch_add(1, Ordering::SeqCst);
        if self.record_sites {
            let mut s = self.sites.lock().unwrap();
            if !s.contains(&site) {
                s.push(site);
            }
        }
        simrt::yield_point();
        match self.faults.get(&site) {
            None => Ok(()),
            Some(k) => {
                self.fired.lock().unwrap().push((site, *k));
                match k {
                    FaultKind::Error => Err(Error::InvalidWitness(Box::new(Injected(site)))),
                    FaultKind::Panic => std::panic::panic_any(format!("{}", Injected(site))),
                }
            }
        }
    }
}

fn sub(path: u64, k: u64) -> u64 {
    crate::engine::hash2(path, k + 1)
}

// ---------------------------------------------------------------------------
// Program synthesis
// ---------------------------------------------------------------------------

fn run<'dr, D: Driver<'dr, F = Fp>>(
    dr: &mut D,
    node: &Node,
    env: &Arc<Env>,
    path: u64,
    input: &[Element<'dr, D>],
) -> Result<(Element<'dr, D>, Element<'dr, D>)> {
    let mut regs: Vec<Element<'dr, D>> = input.to_vec();
    if regs.is_empty() {
        regs.push(Element::one());
    }
    for (i, op) in node.ops.iter().enumerate() {
        let site = sub(path, i as u64);
        let g = |r: &u8| regs[*r as usize % regs.len()].clone();
        let v = match op {
            Op::Alloc(k) => {
                if k % 2 == 0 {
                    let w = dr.alloc(|| {
                        env.hit(site)?;
                        Ok(Coeff::Arbitrary(Fp::from(*k)))
                    })?;
                    Element::promote(w, D::just(|| Fp::from(*k)))
                } else {
                    let v = D::try_just(|| {
                        env.hit(site)?;
                        Ok(Fp::from(*k))
                    })?;
                    Element::alloc(dr, v)?
                }
            }
            Op::Gate(a, b) => {
                let (fa, fb) = (Fp::from(*a), Fp::from(*b));
                let (_, _, w) = dr.mul(|| {
                    env.hit(site)?;
                    Ok((Coeff::Arbitrary(fa), Coeff::Arbitrary(fb), Coeff::Arbitrary(fa * fb)))
                })?;
                Element::promote(w, D::just(|| fa * fb))
            }
            Op::Mul(a, b) => {
                let (x, y) = (g(a), g(b));
                x.mul(dr, &y)?
            }
            Op::Square(a) => g(a).square(dr)?,
            Op::Add(a, b) => {
                let (x, y) = (g(a), g(b));
                x.add(dr, &y)
            }
            Op::Sub(a, b) => {
                let (x, y) = (g(a), g(b));
                x.sub(dr, &y)
            }
            Op::Scale(a, k) => g(a).scale(dr, Coeff::Arbitrary(Fp::from(*k))),
            Op::Const(k) => Element::constant(dr, Fp::from(*k)),
            Op::IsZero(a) => g(a).is_zero(dr)?.element(),
            Op::EnforceSame(a) => {
                let x = g(a);
                let y = x.square(dr)?;
                let z = x.mul(dr, &x)?;
                y.sub(dr, &z).enforce_zero(dr)?;
                x
            }
            Op::Call(n, a, b, c) => {
                let r = |n: &Node| (Arc::new(n.clone()), env.clone(), site);
                let (node, env, path) = r(n);
                macro_rules! call {
                    ($t:literal) => {
                        match n.shape {
                            0 => dr.routine(R0::<$t> { node, env, path }, g(a))?,
                            1 => {
                                let input: FixedVec<_, ConstLen<3>> =
                                    [g(a), g(b), g(c)].into_iter().collect_fixed()?;
                                let o = dr.routine(R1::<$t> { node, env, path }, input)?;
                                o[0].add(dr, &o[1])
                            }
                            _ => dr.routine(R2::<$t> { node, env, path }, ())?,
                        }
                    };
                }
                match n.ty {
                    0 => call!(0),
                    1 => call!(1),
                    _ => call!(2),
                }
            }
        };
        regs.push(v);
    }
    let n = regs.len();
    Ok((regs[n - 1].clone(), regs[n / 2].clone()))
}

macro_rules! routine {
    ($name:ident, $in:ty, $out:ty, $unpack:expr, $pack:expr, $inval:expr, $predict:expr) => {
        #[derive(Clone)]
        pub struct $name<const T: usize> {
            node: Arc<Node>,
            env: Arc<Env>,
            path: u64,
        }
        impl<const T: usize> Routine<Fp> for $name<T> {
            type Input = $in;
            type Output = $out;
            type Aux<'dr> = u64;

            fn execute<'dr, D: Driver<'dr, F = Fp>>(
                &self,
                dr: &mut D,
                input: Bound<'dr, D, Self::Input>,
                aux: DriverValue<D, u64>,
            ) -> Result<Bound<'dr, D, Self::Output>> {
                // The auxiliary data of this very call must arrive here.
                D::try_just(|| {
                    if *aux.snag() != self.path {
                        return Err(Error::InvalidWitness("auxiliary data of another call".into()));
                    }
                    self.env.hit(sub(self.path, 0xE))
                })?;
                let input: Vec<Element<'dr, D>> = $unpack(input);
                let o = run(dr, &self.node, &self.env, self.path, &input)?;
                $pack(o)
            }

            fn predict<'dr, D: Driver<'dr, F = Fp, Wire = ()>>(
                &self,
                dr: &mut D,
                input: &Bound<'dr, D, Self::Input>,
            ) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, u64>>> {
                let aux = D::try_just(|| {
                    self.env.hit(sub(self.path, 0xA))?;
                    Ok(self.path)
                })?;
                if !self.node.known {
                    return Ok(Prediction::Unknown(aux));
                }
                let v = D::try_just(|| {
                    self.env.hit(sub(self.path, 0xB))?;
                    let iv: Vec<Fp> = $inval(input);
                    Ok(self.node.eval(&iv))
                })?;
                let a = Element::alloc(dr, v.as_ref().map(|v| v.0))?;
                let b = Element::alloc(dr, v.as_ref().map(|v| v.1))?;
                let o: Result<_> = $pack((a, b));
                Ok(Prediction::Known(o?, aux))
            }
        }
    };
}

routine!(
    R0,
    Kind![Fp; Element<'_, _>],
    Kind![Fp; Element<'_, _>],
    |i| vec![i],
    |o: (_, _)| Ok(o.0),
    |i: &Element<'dr, D>| vec![*i.value().take()],
    ()
);
routine!(
    R1,
    FixedVec<PhantomData<Kind![Fp; Element<'_, _>]>, ConstLen<3>>,
    FixedVec<PhantomData<Kind![Fp; Element<'_, _>]>, ConstLen<2>>,
    |i: FixedVec<_, ConstLen<3>>| i.into_inner(),
    |o: (_, _)| [o.0, o.1].into_iter().collect_fixed(),
    |i: &FixedVec<Element<'dr, D>, ConstLen<3>>| i.iter().map(|e| *e.value().take()).collect(),
    ()
);
routine!(
    R2,
    (),
    Kind![Fp; Element<'_, _>],
    |_| vec![],
    |o: (_, _)| Ok(o.0),
    |_| vec![],
    ()
);

/// The circuit: `inputs` witness elements, one output element.
#[derive(Clone)]
pub struct Program {
    pub node: Arc<Node>,
    pub env: Arc<Env>,
    pub inputs: usize,
}

impl Program {
    pub fn expected(&self, w: &[Fp]) -> Fp {
        let (a, b) = self.node.eval(w);
        a + b
    }
}

impl Circuit<Fp> for Program {
    type Instance<'s> = Fp;
    type Witness<'s> = &'s [Fp];
    type Output = Kind![Fp; Element<'_, _>];
    type Aux<'s> = Fp;

    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        instance: DriverValue<D, Fp>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, instance)
    }

    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        witness: DriverValue<D, &'s [Fp]>,
    ) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, Fp>>> {
        let mut input = Vec::new();
        for i in 0..self.inputs {
            let v = D::try_just(|| {
                self.env.hit(sub(7, i as u64))?;
                Ok(witness.snag()[i])
            })?;
            input.push(Element::alloc(dr, v)?);
        }
        let (a, b) = run(dr, &self.node, &self.env, 1, &input)?;
        let out = a.add(dr, &b);
        let aux = D::just(|| *out.value().take());
        Ok(WithAux::new(out, aux))
    }
}
