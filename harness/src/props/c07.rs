//! A proof is a function of its inputs and the prover's randomness: never of
//! the schedule, the number of workers, or what else the process is doing.

use super::c05::pcd_components;
use crate::engine::*;
use crate::pcd::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Job {
    Step { step: u8, l: usize, r: usize, w: u64, g: u64 },
    Rerandomize { item: usize, g: u64 },
    /// Verification of an honest or a damaged item.
    Verify { item: usize, bad: bool, g: u64 },
    /// Building the application from scratch, then one verification with it.
    Build { item: usize, g: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sim: SimCase,
    /// One list of jobs per concurrent node.
    pub clients: Vec<Vec<Job>>,
}

pub struct C07;

fn child(kind: u8, k: usize) -> &'static Item {
    let p = &pool().items;
    let c: Vec<usize> = (0..POOL).filter(|i| p[*i].kind == kind).collect();
    &p[c[k % c.len()]]
}

fn do_job(app: &App, j: &Job) -> u64 {
    match j {
        Job::Step { step, l, r, w, g } => {
            let (lk, rk, _) = SIG[*step as usize];
            let (l, r) = (child(lk, *l), child(rk, *r));
            match apply(app, &mut rng(*g), *step, plain(*w), Some(l), Some(r)) {
                Ok((i, aux)) => simrt::quiet(|| hash2(digest(&i), hash_str(&format!("{aux:?}")))),
                Err(e) => hash_str(&e.to_string()),
            }
        }
        Job::Rerandomize { item, g } => match rerandomize(app, &mut rng(*g), &pool().items[*item]) {
            Ok(i) => simrt::quiet(|| digest(&i)),
            Err(e) => hash_str(&e.to_string()),
        },
        Job::Verify { item, bad, g } => {
            let mut i = pool().items[*item].clone();
            if *bad {
                let mut k = 0;
                i.proof.sim_parts(&mut |_, mut part| {
                    if k == (*g % 3) as usize * 30 + 10 {
                        let mut b = part_bytes(&part);
                        if b.len() > 32 {
                            b[8] ^= 1;
                            load_part(&mut part, &b);
                        }
                    }
                    k += 1;
                });
            }
            hash_str(&format!("{:?}", verify(app, rng(*g), &i).map_err(|e| e.to_string())))
        }
        Job::Build { item, g } => {
            let app = build_app();
            hash_str(&format!("{:?}", verify(&app, rng(*g), &pool().items[*item]).map_err(|e| e.to_string())))
        }
    }
}

/// The same job alone, with no pool at all.
fn baseline(j: &Job) -> u64 {
    static M: Mutex<Option<HashMap<Job, u64>>> = Mutex::new(None);
    if let Some(v) = M.lock().unwrap().get_or_insert_default().get(j) {
        return *v;
    }
    let v = do_job(&build_app(), j);
    M.lock().unwrap().get_or_insert_default().insert(j.clone(), v);
    v
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "a run executes proof-making and verifying jobs on one to three concurrent nodes sharing the simulated pool and compares every result bit for bit with the same job run alone; non-trivial when at least one task was stolen or preempted; distinct by schedule"
    }
    fn prepare(&self) {
        prepare_pool();
    }
    fn warm(&self) {
        let _ = guard(pool);
    }
    fn generate(&self, seed: u64, _tier: Tier) -> Value {
        let mut rng = Rng::new(seed);
        let mut sim = SimCase::draw(&mut rng);
        sim.field_gap = if rng.chance(1, 4) { 2_000_000 + rng.below(2_000_000) as u32 } else { 0 };
        let n = 1 + rng.below(3) as usize;
        let clients = (0..n)
            .map(|_| {
                let k = if n == 1 { 1 + rng.below(2) } else { 1 };
                (0..k)
                    .map(|_| {
                        // A small set of jobs, so that baselines are shared.
                        let g = 1;
                        match rng.below(8) {
                            0..=3 => {
                                let step = rng.below(STEPS as u64) as u8;
                                Job::Step { step, l: rng.below(2) as usize, r: 0, w: 3, g }
                            }
                            4 => Job::Rerandomize { item: rng.below(2) as usize, g },
                            5 => Job::Build { item: rng.below(POOL as u64) as usize, g },
                            _ => Job::Verify { item: rng.below(POOL as u64) as usize, bad: rng.chance(1, 2), g: rng.below(50) },
                        }
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Case { sim, clients }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let mut o = Outcome::default();
        let _ = pool();
        let want: Vec<Vec<u64>> = case.clients.iter().map(|c| c.iter().map(baseline).collect()).collect();
        let out: Vec<Mutex<Vec<u64>>> = case.clients.iter().map(|_| Mutex::new(vec![])).collect();
        let (rep, panics) = simrt::run(
            case.sim.config(),
            case.clients
                .iter()
                .zip(&out)
                .map(|(jobs, out)| {
                    let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                        // Every node is its own process: its own application.
                        let app = build_app();
                        for j in jobs {
                            let d = do_job(&app, j);
                            out.lock().unwrap().push(d);
                        }
                    });
                    f
                })
                .collect(),
        );
        o.absorb_report(&rep);
        o.decisions = rep.decisions.clone();
        o.nontrivial = rep.steals > 0 || rep.preemptions > 0;
        o.distinct.push(rep.schedule_hash);
        o.count("concurrent_nodes", case.clients.len() as u64);
        for (k, p) in panics.iter().enumerate() {
            if let Some(p) = p {
                o.fail("panic", format!("node {k} panicked: {}", panic_text(&**p)));
            }
        }
        for (k, jobs) in case.clients.iter().enumerate() {
            let got = out[k].lock().unwrap().clone();
            for (i, g) in got.iter().enumerate() {
                o.mix(*g);
                o.count(
                    match &jobs[i] {
                        Job::Step { .. } => "jobs.step",
                        Job::Rerandomize { .. } => "jobs.rerandomize",
                        Job::Verify { .. } => "jobs.verify",
                        Job::Build { .. } => "jobs.build",
                    },
                    1,
                );
                if *g != want[k][i] {
                    o.fail("schedule-dependent", format!("node {k}: {:?} gave another result than the same job alone", jobs[i]));
                }
            }
        }
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut v = Vec::new();
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        for i in 0..c.clients.len() {
            if c.clients.len() > 1 {
                let mut d = c.clone();
                d.clients.remove(i);
                v.push(serde_json::to_value(d).unwrap());
            }
            for j in 0..c.clients[i].len() {
                if c.clients[i].len() > 1 {
                    let mut d = c.clone();
                    d.clients[i].remove(j);
                    v.push(serde_json::to_value(d).unwrap());
                }
            }
        }
        v.extend(shrink_sim(case));
        v
    }
    fn components(&self) -> Value {
        pcd_components()
    }
}
