//! A recording driver, and a lying prover that searches for advice satisfying
//! the recorded constraints.

use ff::Field;
use ragu_arithmetic::Coeff;
use ragu_core::{
    Result,
    drivers::{Driver, DriverTypes, LinearExpression},
    maybe::{Always, Maybe, MaybeKind},
};
use ragu_pasta::Fp;
use simrt::Rng;

/// A linear combination of variables, sorted, without zero terms. Variable 0
/// is the constant one.
pub type Lc = Vec<(u32, Fp)>;

#[derive(Clone)]
pub struct Acc {
    terms: Vec<(u32, Fp)>,
    gain: Fp,
}

impl Default for Acc {
    fn default() -> Self {
        Acc { terms: vec![], gain: Fp::ONE }
    }
}

pub fn cval(c: Coeff<Fp>) -> Fp {
    match c {
        Coeff::Zero => Fp::ZERO,
        Coeff::One => Fp::ONE,
        Coeff::Two => Fp::from(2),
        Coeff::NegativeOne => -Fp::ONE,
        Coeff::Arbitrary(f) => f,
        Coeff::NegativeArbitrary(f) => -f,
    }
}

impl LinearExpression<u32, Fp> for Acc {
    fn add_term(mut self, wire: &u32, coeff: Coeff<Fp>) -> Self {
        self.terms.push((*wire, cval(coeff) * self.gain));
        self
    }
    fn gain(mut self, coeff: Coeff<Fp>) -> Self {
        self.gain *= cval(coeff);
        self
    }
}

/// Records gates and constraints; with a witness, also assignments.
pub struct Rec<M> {
    pub vars: usize,
    pub vals: Vec<Fp>,
    pub gates: Vec<[u32; 4]>,
    pub lins: Vec<Lc>,
    pub wires: Vec<Lc>,
    _m: std::marker::PhantomData<M>,
}

impl<M: MaybeKind> Rec<M> {
    pub fn new() -> Self {
        Rec {
            vars: 1,
            vals: vec![Fp::ONE],
            gates: vec![],
            lins: vec![],
            wires: vec![vec![(0, Fp::ONE)]],
            _m: std::marker::PhantomData,
        }
    }
    fn var(&mut self) -> u32 {
        let v = self.vars as u32;
        self.vars += 1;
        self.wires.push(vec![(v, Fp::ONE)]);
        v
    }
    fn resolve(&self, a: &Acc) -> Lc {
        if a.terms.len() == 1 && a.terms[0].1 == Fp::ONE {
            return self.wires[a.terms[0].0 as usize].clone();
        }
        let mut t: Vec<(u32, Fp)> = vec![];
        for (w, c) in &a.terms {
            t.extend(self.wires[*w as usize].iter().map(|(v, k)| (*v, *k * c)));
        }
        normal(t)
    }
    pub fn lc_val(&self, lc: &Lc) -> Fp {
        lc.iter().map(|(v, c)| self.vals[*v as usize] * c).sum()
    }
    pub fn val(&self, wire: u32) -> Fp {
        self.lc_val(&self.wires[wire as usize])
    }
    /// The first recorded constraint the recorded assignment violates.
    pub fn violated(&self) -> Option<String> {
        check(&self.gates, &self.lins, &self.vals)
    }
}

pub fn normal(mut t: Vec<(u32, Fp)>) -> Lc {
    t.sort_by_key(|x| x.0);
    let mut o: Lc = vec![];
    for (v, c) in t {
        match o.last_mut() {
            Some(l) if l.0 == v => l.1 += c,
            _ => o.push((v, c)),
        }
    }
    o.retain(|x| x.1 != Fp::ZERO);
    o
}

pub fn check(gates: &[[u32; 4]], lins: &[Lc], v: &[Fp]) -> Option<String> {
    for (i, g) in gates.iter().enumerate() {
        let [a, b, c, d] = g.map(|x| v[x as usize]);
        if a * b != c || c * d != Fp::ZERO {
            return Some(format!("gate {i}"));
        }
    }
    for (i, l) in lins.iter().enumerate() {
        if l.iter().map(|(x, c)| v[*x as usize] * c).sum::<Fp>() != Fp::ZERO {
            return Some(format!("constraint {i}"));
        }
    }
    None
}

impl<M: MaybeKind> DriverTypes for Rec<M> {
    type ImplField = Fp;
    type ImplWire = u32;
    type MaybeKind = M;
    type LCadd = Acc;
    type LCenforce = Acc;

    fn gate(
        &mut self,
        values: impl Fn() -> Result<(Coeff<Fp>, Coeff<Fp>, Coeff<Fp>, Coeff<Fp>)>,
    ) -> Result<(u32, u32, u32, u32)> {
        let v = M::maybe_try_just(values)?;
        let vals = &mut self.vals;
        v.map(|(a, b, c, d)| vals.extend([cval(a), cval(b), cval(c), cval(d)]));
        let first = self.wires.len() as u32;
        let g = [self.var(), self.var(), self.var(), self.var()];
        self.gates.push(g);
        Ok((first, first + 1, first + 2, first + 3))
    }
}

impl<'dr, M: MaybeKind> Driver<'dr> for Rec<M> {
    const ONE: u32 = 0;
    type F = Fp;
    type Wire = u32;

    fn alloc(&mut self, value: impl Fn() -> Result<Coeff<Fp>>) -> Result<u32> {
        let v = M::maybe_try_just(value)?;
        let vals = &mut self.vals;
        v.map(|a| vals.push(cval(a)));
        let w = self.wires.len() as u32;
        self.var();
        Ok(w)
    }

    fn add(&mut self, lc: impl Fn(Acc) -> Acc) -> u32 {
        let lc = self.resolve(&lc(Acc::default()));
        let w = self.wires.len() as u32;
        self.wires.push(lc);
        w
    }

    fn enforce_zero(&mut self, lc: impl Fn(Acc) -> Acc) -> Result<()> {
        let lc = self.resolve(&lc(Acc::default()));
        self.lins.push(lc);
        Ok(())
    }
}

pub type Live = Rec<Always<()>>;

// ---------------------------------------------------------------------------
// The lying prover
// ---------------------------------------------------------------------------

/// A constraint system with equal variables merged.
pub struct Sys {
    n: usize,
    root: Vec<u32>,
    gates: Vec<[u32; 4]>,
    lins: Vec<Lc>,
    gate_occ: Vec<Vec<u32>>,
    lin_occ: Vec<Vec<(u32, Fp)>>,
    /// Number of places a variable matters, besides its own square.
    uses: Vec<u32>,
}

impl Sys {
    pub fn new(n: usize, gates: &[[u32; 4]], lins: &[Lc], outs: &[Lc]) -> Sys {
        let mut root: Vec<u32> = (0..n as u32).collect();
        fn find(r: &mut [u32], mut x: u32) -> u32 {
            while r[x as usize] != x {
                r[x as usize] = r[r[x as usize] as usize];
                x = r[x as usize];
            }
            x
        }
        for l in lins {
            if let [(a, c), (b, d)] = l[..] {
                if c + d == Fp::ZERO {
                    let (x, y) = (find(&mut root, a), find(&mut root, b));
                    let (x, y) = (x.min(y), x.max(y));
                    root[y as usize] = x;
                }
            }
        }
        for i in 0..n as u32 {
            root[i as usize] = find(&mut root, i);
        }
        let gates: Vec<[u32; 4]> = gates.iter().map(|g| g.map(|v| root[v as usize])).collect();
        let mut lins: Vec<Lc> =
            lins.iter().map(|l| normal(l.iter().map(|(v, c)| (root[*v as usize], *c)).collect())).collect();
        lins.retain(|l| !l.is_empty());
        let mut gate_occ = vec![vec![]; n];
        let mut lin_occ = vec![vec![]; n];
        let mut uses = vec![0; n];
        for (i, g) in gates.iter().enumerate() {
            for v in g {
                if gate_occ[*v as usize].last() != Some(&(i as u32)) {
                    gate_occ[*v as usize].push(i as u32);
                }
                uses[*v as usize] += 1;
            }
        }
        for (i, l) in lins.iter().enumerate() {
            for (v, c) in l {
                lin_occ[*v as usize].push((i as u32, *c));
                uses[*v as usize] += 1;
            }
        }
        for l in outs {
            for (v, _) in l {
                uses[root[*v as usize] as usize] += 1;
            }
        }
        Sys { n, root, gates, lins, gate_occ, lin_occ, uses }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub forced: u64,
    pub branches: u64,
    pub free: u64,
    pub backtracks: u64,
    pub gave_up: bool,
}

struct Solver<'s> {
    s: &'s Sys,
    val: Vec<Option<Fp>>,
    trail: Vec<u32>,
    cnt: Vec<u32>,
    sum: Vec<Fp>,
    lq: Vec<u32>,
    gq: Vec<u32>,
    /// Gates whose inputs are one unknown variable: a square or a bit.
    open: Vec<u32>,
}

struct Clash;

impl<'s> Solver<'s> {
    fn new(s: &'s Sys) -> Self {
        Solver {
            s,
            val: vec![None; s.n],
            trail: vec![],
            cnt: s.lins.iter().map(|l| l.len() as u32).collect(),
            sum: vec![Fp::ZERO; s.lins.len()],
            lq: s.lins.iter().enumerate().filter(|(_, l)| l.len() == 1).map(|(i, _)| i as u32).collect(),
            gq: vec![],
            open: (0..s.gates.len() as u32).filter(|g| s.gates[*g as usize][0] == s.gates[*g as usize][1]).collect(),
        }
    }

    fn set(&mut self, v: u32, x: Fp) -> std::result::Result<(), Clash> {
        let i = v as usize;
        if let Some(y) = self.val[i] {
            return if y == x { Ok(()) } else { Err(Clash) };
        }
        self.val[i] = Some(x);
        self.trail.push(v);
        let mut bad = false;
        for (l, c) in &self.s.lin_occ[i] {
            let l = *l as usize;
            self.cnt[l] -= 1;
            self.sum[l] += *c * x;
            if self.cnt[l] == 1 {
                self.lq.push(l as u32);
            }
            bad |= self.cnt[l] == 0 && self.sum[l] != Fp::ZERO;
        }
        self.gq.extend(&self.s.gate_occ[i]);
        if bad { Err(Clash) } else { Ok(()) }
    }

    fn undo(&mut self, mark: usize) {
        self.lq.clear();
        self.gq.clear();
        while self.trail.len() > mark {
            let v = self.trail.pop().unwrap() as usize;
            let x = self.val[v].take().unwrap();
            for (l, c) in &self.s.lin_occ[v] {
                self.cnt[*l as usize] += 1;
                self.sum[*l as usize] -= *c * x;
            }
        }
    }

    fn propagate(&mut self) -> std::result::Result<(), Clash> {
        loop {
            if let Some(l) = self.lq.pop() {
                let l = l as usize;
                if self.cnt[l] == 1 {
                    let (v, c) =
                        *self.s.lins[l].iter().find(|(v, _)| self.val[*v as usize].is_none()).expect("one unknown");
                    self.set(v, -self.sum[l] * c.invert().unwrap())?;
                }
                continue;
            }
            let Some(g) = self.gq.pop() else { return Ok(()) };
            let [a, b, c, d] = self.s.gates[g as usize];
            let f = |s: &Self, v: u32| s.val[v as usize];
            match (f(self, a), f(self, b)) {
                (Some(x), Some(y)) => self.set(c, x * y)?,
                (Some(x), _) if x == Fp::ZERO => self.set(c, Fp::ZERO)?,
                (_, Some(y)) if y == Fp::ZERO => self.set(c, Fp::ZERO)?,
                (Some(x), None) => {
                    if let Some(z) = f(self, c) {
                        self.set(b, z * x.invert().unwrap())?;
                    } else if b == c && x != Fp::ONE {
                        self.set(b, Fp::ZERO)?;
                    }
                }
                (None, Some(y)) => {
                    if let Some(z) = f(self, c) {
                        self.set(a, z * y.invert().unwrap())?;
                    } else if a == c && y != Fp::ONE {
                        self.set(a, Fp::ZERO)?;
                    }
                }
                (None, None) if a == b && a != c => {
                    if let Some(z) = f(self, c) {
                        match Option::<Fp>::from(z.sqrt()) {
                            None => return Err(Clash),
                            // Nothing else depends on the sign.
                            Some(r) if r == Fp::ZERO || self.s.uses[a as usize] == 2 => self.set(a, r)?,
                            Some(_) => {}
                        }
                    }
                }
                (None, None) => {}
            }
            match (f(self, c), f(self, d)) {
                (Some(z), None) if z != Fp::ZERO => self.set(d, Fp::ZERO)?,
                (Some(z), Some(w)) if z * w != Fp::ZERO => return Err(Clash),
                (None, Some(w)) if w != Fp::ZERO => self.set(c, Fp::ZERO)?,
                _ => {}
            }
        }
    }

    fn try_set(&mut self, v: u32, x: Fp) -> bool {
        let m = self.trail.len();
        if self.set(v, x).is_ok() && self.propagate().is_ok() {
            return true;
        }
        self.undo(m);
        false
    }

    /// The finite choices a gate leaves for its unknown input.
    fn choices(&self, g: u32) -> Option<(u32, Vec<Fp>)> {
        let [a, _, c, _] = self.s.gates[g as usize];
        if self.val[a as usize].is_some() {
            return None;
        }
        if a == c {
            return Some((a, vec![Fp::ZERO, Fp::ONE]));
        }
        let z = self.val[c as usize]?;
        let r: Option<Fp> = z.sqrt().into();
        Some(match r {
            None => (a, vec![]),
            Some(r) => (a, vec![r, -r]),
        })
    }
}

/// Searches for a full assignment with the given variables fixed. `honest`
/// holds the honest prover's values where there are any.
pub fn forge(
    s: &Sys,
    fixed: &[(u32, Fp)],
    honest: Option<&[Fp]>,
    lie: Option<(u32, Fp)>,
    rng: &mut Rng,
    budget: u64,
    st: &mut Stats,
) -> Option<Vec<Fp>> {
    let mut k = Solver::new(s);
    let mut ok = k.set(s.root[0], Fp::ONE).is_ok();
    for (v, x) in fixed {
        ok = ok && k.set(s.root[*v as usize], *x).is_ok();
    }
    ok = ok && k.propagate().is_ok();
    if let (true, Some((v, x))) = (ok, lie) {
        ok = k.set(s.root[v as usize], x).is_ok() && k.propagate().is_ok();
    }
    if !ok {
        return None;
    }
    let mut stack: Vec<(usize, u32, Vec<Fp>)> = vec![];
    let finish = |k: &Solver, rng: &mut Rng| -> Vec<Fp> {
        let x: Vec<Fp> = (0..s.n).map(|i| k.val[i].unwrap_or_else(|| crate::props::field_of(rng.next()))).collect();
        (0..s.n).map(|i| x[s.root[i] as usize]).collect()
    };
    'next: loop {
        // Finite choices first; those with one answer are not choices.
        let mut clash = false;
        let mut pick: Option<(u32, Vec<Fp>)> = None;
        let mut moved = true;
        while moved && !clash {
            moved = false;
            pick = None;
            for i in 0..k.open.len() {
                let Some((v, opts)) = k.choices(k.open[i]) else { continue };
                let mut live = vec![];
                let m = k.trail.len();
                for x in &opts {
                    if k.try_set(v, *x) {
                        live.push(*x);
                        k.undo(m);
                    }
                }
                match live.len() {
                    0 => clash = true,
                    1 => {
                        st.forced += 1;
                        moved = true;
                        if !k.try_set(v, live[0]) {
                            clash = true;
                        }
                    }
                    _ => {
                        if rng.chance(1, 2) {
                            live.reverse();
                        }
                        pick = pick.or(Some((v, live)));
                    }
                }
                if clash {
                    break;
                }
            }
        }
        let choice = if clash {
            None
        } else if let Some((v, mut o)) = pick {
            st.branches += 1;
            o.reverse();
            Some((v, o))
        } else {
            // Anything a live constraint still mentions.
            let mut cand: Vec<u32> = vec![];
            for (i, l) in s.lins.iter().enumerate() {
                if k.cnt[i] > 0 {
                    cand.extend(l.iter().map(|t| t.0).filter(|v| k.val[*v as usize].is_none()));
                }
            }
            for g in &s.gates {
                let z = |v: u32| k.val[v as usize];
                let done = match (z(g[0]), z(g[1]), z(g[2])) {
                    (Some(_), Some(_), _) => true,
                    (Some(x), _, Some(_)) | (_, Some(x), Some(_)) => x == Fp::ZERO,
                    _ => false,
                };
                if !done {
                    cand.extend(g[..3].iter().copied().filter(|v| k.val[*v as usize].is_none()));
                }
            }
            if cand.is_empty() {
                // Auxiliary wires.
                for g in &s.gates {
                    if k.val[g[3] as usize].is_none() {
                        let _ = k.try_set(g[3], Fp::ZERO);
                    }
                }
                return Some(finish(&k, rng));
            }
            st.free += 1;
            let v = if rng.chance(1, 2) { *cand.iter().min().unwrap() } else { cand[rng.below(cand.len() as u64) as usize] };
            let h = honest.and_then(|h| (0..s.n).find(|i| s.root[*i] == v).map(|i| h[i]));
            let r = crate::props::field_of(rng.next());
            let mut o = vec![r];
            if let Some(h) = h {
                o.extend([h + Fp::ONE, -h, h]);
            }
            o.extend([Fp::ZERO, Fp::ONE]);
            let j = rng.below(o.len() as u64) as usize;
            o.swap(0, j);
            if let Some(h) = h {
                // The honest value is the last resort.
                o.retain(|x| *x != h);
                o.push(h);
            }
            o.reverse();
            Some((v, o))
        };
        match choice {
            Some((v, o)) => stack.push((k.trail.len(), v, o)),
            None => {}
        }
        loop {
            let Some((m, v, o)) = stack.last_mut() else { return None };
            let (m, v) = (*m, *v);
            let x = o.pop();
            k.undo(m);
            match x {
                None => {
                    stack.pop();
                }
                Some(x) => {
                    if k.try_set(v, x) {
                        continue 'next;
                    }
                }
            }
            st.backtracks += 1;
            if st.backtracks > budget {
                st.gave_up = true;
                return None;
            }
        }
    }
}
