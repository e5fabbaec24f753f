//! Honest histories: whatever the nodes, the network and the storage do, every
//! item an honest step returned verifies everywhere and carries the model's data.

use super::c05::pcd_components;
use crate::engine::*;
use crate::pcd::*;
use ff::Field;
use ragu_pasta::Fp;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    /// A node runs a step on items it holds.
    Work { node: usize, step: u8, w: u64, l: usize, r: usize },
    Rerandomize { node: usize, item: usize },
    /// A node sends one of its items; the network may then lose, duplicate,
    /// delay and reorder it.
    Send { from: usize, to: usize, item: usize },
    Deliver { at: usize },
    Drop { at: usize },
    Duplicate { at: usize },
    /// The process dies: only stored bytes survive.
    Crash { node: usize },
    Verify { node: usize, item: usize, g: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    pub nodes: usize,
    /// Pool items every node starts with (none: everything from scratch).
    pub given: Vec<usize>,
    pub events: Vec<Ev>,
    pub g: u64,
    /// Quality of the provers' randomness: 0 normal, 1 constant bytes.
    pub bad_rng: bool,
    /// Instead: a short history in an application of another shape.
    #[serde(default)]
    pub shape: Option<u64>,
}

pub struct C04;

/// A generator a stuck entropy source would give: the same bytes for ever.
pub struct Stuck(pub u8);
impl rand::TryRng for Stuck {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(u32::from_le_bytes([self.0; 4]))
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        Ok(u64::from_le_bytes([self.0; 8]))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> {
        d.fill(self.0);
        Ok(())
    }
}
impl rand::TryCryptoRng for Stuck {}

struct Held {
    item: Item,
    expect: Vec<Fp>,
}

struct Node {
    app: App,
    /// What survives a crash.
    disk: BTreeMap<u64, Held>,
}

fn w_of(v: u64) -> Fp {
    match v % 7 {
        0 => Fp::ZERO,
        1 => Fp::ONE,
        2 => -Fp::ONE,
        3 => Fp::from(u64::MAX) * Fp::from(v),
        _ => Fp::from(v),
    }
}

fn pick(n: &Node, kind: u8, k: usize) -> Option<u64> {
    let c: Vec<u64> = n.disk.iter().filter(|(_, h)| h.item.kind == kind).map(|(id, _)| *id).collect();
    (!c.is_empty()).then(|| c[k % c.len()])
}

fn nth(n: &Node, k: usize) -> Option<u64> {
    (!n.disk.is_empty()).then(|| *n.disk.keys().nth(k % n.disk.len()).unwrap())
}

#[derive(Default)]
struct Log {
    fails: Vec<(String, String)>,
    counts: BTreeMap<&'static str, u64>,
    hash: u64,
    shape: u64,
}

fn world(c: &Case) -> Log {
    let mut log = Log::default();
    let p = pool();
    let mut next = 0u64;
    let mut nodes: Vec<Node> = (0..c.nodes)
        .map(|_| {
            let mut disk = BTreeMap::new();
            for g in &c.given {
                next += 1;
                let item = p.items[*g].clone();
                let expect = item.data.clone();
                disk.insert(next, Held { item, expect });
            }
            Node { app: build_app(), disk }
        })
        .collect();
    // (destination, item, expected data)
    let mut net: Vec<(usize, Item, Vec<Fp>)> = Vec::new();
    macro_rules! fail {
        ($c:expr, $($t:tt)*) => { log.fails.push(($c.to_string(), format!($($t)*))) };
    }
    let total = c.events.len();
    for (k, e) in c.events.iter().enumerate() {
        let mut acted = None;
        match e {
            Ev::Work { node, step, w, l, r } => {
                let n = &mut nodes[node % c.nodes];
                let (lk, rk, _) = SIG[*step as usize];
                let needs = !matches!(step, 0 | 5);
                let ids = if needs { (pick(n, lk, *l), pick(n, rk, *r)) } else { (None, None) };
                if needs && (ids.0.is_none() || ids.1.is_none()) {
                    continue;
                }
                let wv = w_of(*w);
                let (li, ri) = (ids.0.map(|i| &n.disk[&i]), ids.1.map(|i| &n.disk[&i]));
                let want = model(
                    *step,
                    wv,
                    li.map_or(&[][..], |h| &h.expect),
                    ri.map_or(&[][..], |h| &h.expect),
                );
                let witness = W { v: wv, env: Default::default() };
                let res = if c.bad_rng {
                    apply(&n.app, &mut Stuck((c.g + k as u64) as u8), *step, witness, li.map(|h| &h.item), ri.map(|h| &h.item))
                } else {
                    apply(&n.app, &mut rng(c.g + k as u64), *step, witness, li.map(|h| &h.item), ri.map(|h| &h.item))
                };
                match res {
                    Ok((item, aux)) => {
                        if item.data != want {
                            fail!("wrong-data", "event {k}: step {step} returned other data than the model");
                        }
                        if aux != wv + Fp::ONE {
                            fail!("wrong-aux", "event {k}: step {step} returned another call's auxiliary data");
                        }
                        next += 1;
                        n.disk.insert(next, Held { item, expect: want });
                        acted = Some((*node % c.nodes, next));
                        *log.counts.entry("steps").or_default() += 1;
                        log.shape = hash2(log.shape, 100 + *step as u64 + 16 * ids.0.unwrap_or(0) + 4096 * ids.1.unwrap_or(0));
                    }
                    Err(e) => fail!("honest-step-error", "event {k}: step {step} failed: {e}"),
                }
            }
            Ev::Rerandomize { node, item } => {
                let n = &mut nodes[node % c.nodes];
                let Some(id) = nth(n, *item) else { continue };
                let h = &n.disk[&id];
                let want = h.expect.clone();
                let res = if c.bad_rng {
                    rerandomize(&n.app, &mut Stuck((c.g + k as u64) as u8), &h.item)
                } else {
                    rerandomize(&n.app, &mut rng(c.g + k as u64), &h.item)
                };
                match res {
                    Ok(item) => {
                        if item.data != want {
                            fail!("wrong-data", "event {k}: rerandomizing changed the data");
                        }
                        next += 1;
                        n.disk.insert(next, Held { item, expect: want });
                        acted = Some((*node % c.nodes, next));
                        *log.counts.entry("rerandomizations").or_default() += 1;
                        log.shape = hash2(log.shape, 200 + id);
                    }
                    Err(e) => fail!("honest-step-error", "event {k}: rerandomizing failed: {e}"),
                }
            }
            Ev::Send { from, to, item } => {
                let n = &nodes[from % c.nodes];
                let Some(id) = nth(n, *item) else { continue };
                let h = &n.disk[&id];
                net.push((to % c.nodes, h.item.clone(), h.expect.clone()));
                *log.counts.entry("sent").or_default() += 1;
            }
            Ev::Deliver { at } => {
                if net.is_empty() {
                    continue;
                }
                let i = at % net.len();
                if i > 0 {
                    *log.counts.entry("fault.reordered").or_default() += 1;
                }
                let (to, mut item, expect) = net.remove(i);
                item.proof = simrt::quiet(|| store_and_load(&item.proof));
                next += 1;
                nodes[to].disk.insert(next, Held { item, expect });
                *log.counts.entry("delivered").or_default() += 1;
                log.shape = hash2(log.shape, 300 + to as u64);
            }
            Ev::Drop { at } => {
                if !net.is_empty() {
                    let i = at % net.len();
                    net.remove(i);
                    *log.counts.entry("fault.lost").or_default() += 1;
                }
            }
            Ev::Duplicate { at } => {
                if !net.is_empty() {
                    let m = &net[at % net.len()];
                    let m = (m.0, m.1.clone(), m.2.clone());
                    net.push(m);
                    *log.counts.entry("fault.duplicated").or_default() += 1;
                }
            }
            Ev::Crash { node } => {
                let n = &mut nodes[node % c.nodes];
                n.app = build_app();
                for h in n.disk.values_mut() {
                    h.item.proof = simrt::quiet(|| store_and_load(&h.item.proof));
                }
                *log.counts.entry("fault.crash_restart").or_default() += 1;
                log.shape = hash2(log.shape, 400 + *node as u64);
            }
            Ev::Verify { node, item, g } => {
                let n = &nodes[node % c.nodes];
                let Some(id) = nth(n, *item) else { continue };
                match verify(&n.app, rng(*g), &n.disk[&id].item) {
                    Ok(true) => {}
                    x => fail!("honest-rejected", "event {k}: an honest item was not accepted: {x:?}"),
                }
                *log.counts.entry("verified").or_default() += 1;
            }
        }
        // Every new item is checked on a node that did not make it.
        if let Some((at, id)) = acted {
            let h = &nodes[at].disk[&id];
            log.hash = hash2(log.hash, simrt::quiet(|| digest(&h.item)));
            let elsewhere = (at + 1) % c.nodes;
            let v = if c.bad_rng && k + 1 == total {
                verify(&nodes[elsewhere].app, Stuck(k as u8 | 1), &h.item)
            } else {
                verify(&nodes[elsewhere].app, rng(c.g ^ k as u64), &h.item)
            };
            match v {
                Ok(true) => {}
                x => fail!("honest-rejected", "event {k}: a freshly made item was not accepted by another node: {x:?}"),
            }
            *log.counts.entry("verified").or_default() += 1;
        }
        if !log.fails.is_empty() {
            break;
        }
    }
    log
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "a run is a history of up to five proof-making events on one to three nodes with a lossy network and crashes, checked against the reference model; non-trivial when at least one proof was made; distinct by the sequence of effective events"
    }
    fn prepare(&self) {
        prepare_pool();
    }
    fn warm(&self) {
        let _ = guard(pool);
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let mut sim = SimCase::draw(&mut rng);
        sim.field_gap = 0;
        let nodes = 1 + rng.below(3) as usize;
        let scratch = rng.chance(1, 4);
        let given: Vec<usize> = if scratch { vec![] } else { (0..POOL).filter(|_| rng.chance(2, 3)).collect() };
        let works = 1 + rng.below(if tier == Tier::Quick { 3 } else { 6 });
        let mut events = Vec::new();
        for i in 0..works {
            for _ in 0..rng.below(4) {
                let (node, item, at) = (rng.below(3) as usize, rng.below(16) as usize, rng.below(8) as usize);
                events.push(match rng.below(10) {
                    0..=2 => Ev::Send { from: node, to: rng.below(3) as usize, item },
                    3 | 4 => Ev::Deliver { at },
                    5 => Ev::Drop { at },
                    6 => Ev::Duplicate { at },
                    7 => Ev::Crash { node },
                    8 => Ev::Send { from: node, to: rng.below(3) as usize, item },
                    _ => Ev::Verify { node, item, g: rng.next() },
                });
            }
            let node = rng.below(3) as usize;
            events.push(if rng.chance(1, 5) && (!scratch || i > 0) {
                Ev::Rerandomize { node, item: rng.below(16) as usize }
            } else {
                let step = if scratch && i == 0 {
                    if rng.chance(1, 3) { 5 } else { 0 }
                } else {
                    *rng.pick(&[0u8, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7])
                };
                Ev::Work { node, step, w: rng.below(1000), l: rng.below(16) as usize, r: rng.below(16) as usize }
            });
        }
        let bad_rng = rng.chance(1, 10);
        serde_json::to_value(Case { sim, nodes, given, events, g: rng.next() >> 1, bad_rng, shape: rng.chance(1, 4).then(|| rng.below(crate::mini::SHAPES)) }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let mut o = Outcome::default();
        if let Some(k) = case.shape {
            let g = case.g >> 8;
            let (r, rep) = case.sim.run1(move || crate::mini::run(k, g));
            o.absorb_report(&rep);
            o.decisions = rep.decisions.clone();
            o.nontrivial = true;
            o.count("probe.shapes", 1);
            o.distinct.push(hash2(k, 0x5a5a));
            match r {
                Err(e) => o.fail("panic", format!("an honest history in application shape {k} panicked: {e}")),
                Ok(Err((c, d))) => o.fail(c, d),
                Ok(Ok(h)) => o.mix(h),
            }
            return o;
        }
        if !case.given.is_empty() {
            let _ = pool();
        }
        let c = &case;
        let (r, rep) = case.sim.run1(|| world(c));
        o.absorb_report(&rep);
        o.decisions = rep.decisions.clone();
        match r {
            Err(e) => o.fail("panic", format!("an honest history panicked: {e}")),
            Ok(log) => {
                for (c, d) in log.fails {
                    o.fail(c, d);
                }
                for (k, n) in &log.counts {
                    o.count(k, *n);
                }
                if case.bad_rng {
                    o.count("fault.stuck_entropy", 1);
                }
                o.mix(log.hash);
                o.nontrivial = log.counts.get("steps").is_some() || log.counts.get("rerandomizations").is_some();
                o.distinct.push(hash2(log.shape, case.nodes as u64));
            }
        }
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = Vec::new();
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        for i in 0..if c.shape.is_some() { 0 } else { c.events.len() } {
            let mut d = c.clone();
            d.events.remove(i);
            v.push(serde_json::to_value(d).unwrap());
        }
        if c.nodes > 1 {
            let mut d = c.clone();
            d.nodes -= 1;
            v.push(serde_json::to_value(d).unwrap());
        }
        v.extend(shrink_sim(case));
        v
    }
    fn components(&self) -> Value {
        pcd_components()
    }
}
