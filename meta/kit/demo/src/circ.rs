//! Nested routines with predictions, for the demonstrations about tracing.
#![allow(dead_code)]
use crate::util::*;
use ragu_arithmetic::Coeff;
use ragu_circuits::{Circuit, CircuitExt, WithAux};
use ragu_core::{
    Error,
    routines::{Prediction, Routine},
};
use ragu_testing::registry::{Handle, TestRegistry, TestRegistryBuilder};

/// `depth` nested calls; every level squares `LEVELS[depth]` times. Predicts its result.
#[derive(Clone)]
pub struct Nest {
    pub depth: usize,
    pub known: bool,
}
pub const LEVELS: [usize; 4] = [2, 2, 2, 2];
impl Nest {
    pub fn calc(&self, x: Fp) -> Fp {
        let mut v = x;
        if self.depth > 0 {
            v = self.child().calc(v + Fp::from(self.depth as u64));
        }
        for _ in 0..LEVELS[self.depth] {
            v = v.square();
        }
        v
    }
    pub fn child(&self) -> Nest {
        Nest { depth: self.depth - 1, known: self.known }
    }
}
impl Routine<Fp> for Nest {
    type Input = Kind![Fp; Element<'_, _>];
    type Output = Kind![Fp; Element<'_, _>];
    type Aux<'dr> = ();
    fn execute<'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        input: Bound<'dr, D, Self::Input>,
        _: DriverValue<D, ()>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        simrt::yield_point();
        let mut v = input;
        if self.depth > 0 {
            let c = Element::constant(dr, Fp::from(self.depth as u64));
            let i = v.add(dr, &c);
            v = dr.routine(self.child(), i)?;
        }
        for _ in 0..LEVELS[self.depth] {
            v = v.square(dr)?;
            simrt::yield_point();
        }
        Ok(v)
    }
    fn predict<'dr, D: Driver<'dr, F = Fp, Wire = ()>>(
        &self,
        dr: &mut D,
        input: &Bound<'dr, D, Self::Input>,
    ) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> {
        if !self.known {
            return Ok(Prediction::Unknown(D::unit()));
        }
        let w = input.value().map(|v| self.calc(*v));
        Ok(Prediction::Known(Element::alloc(dr, w)?, D::unit()))
    }
}

/// Calls `calls` nested routines one after another.
#[derive(Clone)]
pub struct Prog {
    pub calls: usize,
    pub nest: Nest,
}
impl Prog {
    pub fn calc(&self, w: Fp) -> Fp {
        (0..self.calls).fold(w, |v, _| self.nest.calc(v))
    }
}
impl Circuit<Fp> for Prog {
    type Instance<'s> = Fp;
    type Witness<'s> = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    type Aux<'s> = Fp;
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, i: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, i)
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(
        &self,
        dr: &mut D,
        w: DriverValue<D, Fp>,
    ) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, Fp>>> {
        let mut v = Element::alloc(dr, w)?;
        for _ in 0..self.calls {
            v = dr.routine(self.nest.clone(), v)?;
        }
        let aux = D::just(|| *v.value().take());
        Ok(WithAux::new(v, aux))
    }
}

/// Whether the assembled trace satisfies the circuit with output `out`.
pub fn satisfied(reg: &TestRegistry<'_, Fp, R>, h: Handle, p: &Prog, rx: &sparse::Polynomial<Fp, R>, out: Fp) -> bool {
    let (y, z) = (Fp::from(0x1234_5678_9abc), Fp::from(0xfeed_beef_1357));
    let mut b = rx.clone();
    b.dilate(z);
    b.add_assign(&reg.y(h, y));
    b.add_assign(&R::tz(z));
    rx.revdot(&b) == p.ky(out, y).unwrap()
}

pub fn registry(p: &Prog) -> (TestRegistry<'static, Fp, R>, Handle) {
    let mut b = TestRegistryBuilder::<Fp, R>::new();
    let h = b.register_circuit(p.clone()).unwrap();
    (b.finalize().unwrap(), h)
}
