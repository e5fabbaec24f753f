//! What a transcript answers is a function of what it was told, wherever and
//! however often it was saved, moved and resumed on the way.

use crate::engine::*;
use crate::gad::{RefSponge, params};
use ff::{Field, PrimeField};
use ragu_arithmetic::{Cycle, PoseidonPermutation};
use ragu_core::{
    Error,
    drivers::{
        Driver,
        emulator::{Emulator, Wired, Wireless},
    },
    maybe::{Always, Empty, Maybe},
};
use ragu_pasta::Pasta;
use ragu_pcd::sim::{ResumedTranscript, Transcript, TranscriptState};
use ragu_primitives::{
    Element, GadgetExt,
    consistent::Consistent, Simulator,
    io::{Buffer, Write},
    poseidon::{SaveError, Sponge, SpongeState},
};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use simrt::Rng;
use std::collections::HashMap;

/// What kind of driver a node computes on.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Checking,
    Wired,
    Wireless,
    Blind,
}

const KINDS: [Kind; 4] = [Kind::Checking, Kind::Wired, Kind::Wireless, Kind::Blind];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// Open a transcript with a tag on a node.
    Open(u8, Vec<u8>),
    /// Open a bare sponge on a node.
    Bare(u8),
    /// Tell a session a value (small numbers, or a random one by seed).
    Tell(u8, u64),
    /// Tell a session what another session on its node just answered.
    Relay(u8),
    /// Ask a session for a challenge.
    Ask(u8),
    /// Split a session.
    Fork(u8),
    /// Save a session to disk (ends it); the flag says by which accessor.
    Save(u8, bool),
    /// Bring a stored state back to life on a node.
    Wake(u8, u8),
    /// Let a resumed session absorb again.
    Into(u8),
    /// A node dies with everything in memory.
    Crash(u8),
    /// The disk mixes an old state into a stored one, from some element on.
    Torn(u8, u8, u8),
    /// The disk alters one stored element.
    Rot(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// Over the other curve's field.
    other: bool,
    nodes: Vec<Kind>,
    acts: Vec<Act>,
}

pub struct C12;

/// What a session answered to an action.
#[derive(Debug, PartialEq)]
enum Ans<F> {
    Done,
    Value(F),
    /// A value that cannot be seen.
    Unseen,
    State(Vec<F>),
    /// A refusal by name.
    No(&'static str),
}

enum Live<D: Driver<'static>, P: PoseidonPermutation<D::F>> {
    Full(Transcript<'static, D, P>),
    Half(ResumedTranscript<'static, D, P>),
    Bare(Sponge<'static, D, P>),
    Gone,
}

trait Host<F> {
    fn open(&mut self, tag: Option<&[u8]>) -> Ans<F>;
    fn tell(&mut self, s: usize, v: F) -> Ans<F>;
    fn ask(&mut self, s: usize) -> Ans<F>;
    fn fork(&mut self, s: usize) -> Ans<F>;
    fn save(&mut self, s: usize, by_write: bool) -> Ans<F>;
    fn wake(&mut self, state: &[F], as_sponge: bool) -> Ans<F>;
    fn revive(&mut self, s: usize) -> Ans<F>;
}

struct Node<D: Driver<'static>, P: PoseidonPermutation<D::F>> {
    dr: D,
    p: &'static P,
    /// The wire and the value an element shows.
    read: fn(&Element<'static, D>) -> Option<(D::F, D::F)>,
    live: Vec<Live<D, P>>,
}

fn no(e: &Error) -> &'static str {
    match e {
        Error::Initialization(_) => "initialization",
        Error::InvalidWitness(_) => "invalid-witness",
        _ => "other",
    }
}

impl<F: PrimeField, D: Driver<'static, F = F>, P: PoseidonPermutation<F>> Node<D, P> {
    fn seen(&self, e: &Element<'static, D>) -> Ans<F> {
        match (self.read)(e) {
            None => Ans::Unseen,
            Some((w, v)) if w != v => Ans::No("wire differs from value"),
            Some((_, v)) => Ans::Value(v),
        }
    }
}

impl<F: PrimeField, D: Driver<'static, F = F>, P: PoseidonPermutation<F>> Host<F> for Node<D, P> {
    fn open(&mut self, tag: Option<&[u8]>) -> Ans<F> {
        let l = match tag {
            Some(t) => match Transcript::new(&mut self.dr, self.p, t) {
                Ok(t) => Live::Full(t),
                Err(e) => return Ans::No(no(&e)),
            },
            None => Live::Bare(Sponge::new(&mut self.dr, self.p)),
        };
        self.live.push(l);
        Ans::Done
    }
    fn tell(&mut self, s: usize, v: F) -> Ans<F> {
        let dr = &mut self.dr;
        let e = match Element::alloc(dr, D::just(|| v)) {
            Ok(e) => e,
            Err(e) => return Ans::No(no(&e)),
        };
        let r = match &mut self.live[s] {
            Live::Full(t) => e.write(dr, t),
            Live::Bare(t) => t.absorb(dr, &e),
            _ => return Ans::No("gone"),
        };
        match r {
            Ok(()) => Ans::Done,
            Err(e) => Ans::No(no(&e)),
        }
    }
    fn ask(&mut self, s: usize) -> Ans<F> {
        let dr = &mut self.dr;
        let r = match &mut self.live[s] {
            Live::Full(t) => t.challenge(dr),
            Live::Half(t) => t.challenge(dr),
            Live::Bare(t) => t.squeeze(dr),
            Live::Gone => return Ans::No("gone"),
        };
        match r {
            Ok(e) => self.seen(&e),
            Err(e) => Ans::No(no(&e)),
        }
    }
    fn fork(&mut self, s: usize) -> Ans<F> {
        let c = match &self.live[s] {
            Live::Full(t) => Live::Full(t.clone()),
            Live::Bare(t) => Live::Bare(t.clone()),
            _ => return Ans::No("gone"),
        };
        self.live.push(c);
        Ans::Done
    }
    fn save(&mut self, s: usize, by_write: bool) -> Ans<F> {
        let l = std::mem::replace(&mut self.live[s], Live::Gone);
        let dr = &mut self.dr;
        let st: Result<TranscriptState<'static, D, P>, _> = match l {
            Live::Full(t) => t.save_state(dr),
            Live::Bare(t) => t.save_state(dr),
            _ => return Ans::No("gone"),
        };
        let st = match st {
            Ok(s) => s,
            Err(SaveError::AlreadyInSqueezeMode) => return Ans::No("already squeezing"),
            Err(SaveError::NothingAbsorbed) => return Ans::No("nothing absorbed"),
            Err(_) => return Ans::No("other"),
        };
        let es: Vec<Element<'static, D>> = if by_write {
            let mut v: Vec<Element<'static, D>> = vec![];
            if let Err(e) = st.write(dr, &mut v) {
                return Ans::No(no(&e));
            }
            v
        } else {
            st.into_elements().iter().cloned().collect()
        };
        let mut out = vec![];
        for e in &es {
            match self.seen(e) {
                Ans::Value(v) => out.push(v),
                Ans::Unseen => return Ans::Unseen,
                x => return x,
            }
        }
        Ans::State(out)
    }
    fn wake(&mut self, state: &[F], as_sponge: bool) -> Ans<F> {
        let dr = &mut self.dr;
        let es: Result<Vec<_>, _> = state.iter().map(|v| Element::alloc(dr, D::just(|| *v))).collect();
        let st = match es {
            Ok(es) => SpongeState::from_elements(es.try_into().expect("a state's length")),
            Err(e) => return Ans::No(no(&e)),
        };
        if let Err(e) = st.enforce_consistent(dr) {
            return Ans::No(no(&e));
        }
        self.live.push(if as_sponge {
            Live::Bare(Sponge::resume(st, self.p))
        } else {
            Live::Half(Transcript::resume_from_state(st, self.p))
        });
        Ans::Done
    }
    fn revive(&mut self, s: usize) -> Ans<F> {
        match std::mem::replace(&mut self.live[s], Live::Gone) {
            Live::Half(t) => match guard(move || t.into_transcript()) {
                Ok(t) => {
                    self.live[s] = Live::Full(t);
                    Ans::Done
                }
                Err(_) => Ans::No("panic"),
            },
            _ => Ans::No("gone"),
        }
    }
}

fn host<F: PrimeField, P: PoseidonPermutation<F>>(k: Kind, p: &'static P) -> Box<dyn Host<F>> {
    match k {
        Kind::Checking => Box::new(Node {
            dr: Simulator::<F>::new(),
            p,
            read: |e| Some((*e.wire(), *e.value().take())),
            live: vec![],
        }),
        Kind::Wired => Box::new(Node {
            dr: Emulator::<Wired<F>>::extractor(),
            p,
            read: |e| Some((*e.wire(), *e.value().take())),
            live: vec![],
        }),
        Kind::Wireless => Box::new(Node {
            dr: Emulator::<Wireless<Always<()>, F>>::execute(),
            p,
            read: |e| Some((*e.value().take(), *e.value().take())),
            live: vec![],
        }),
        Kind::Blind => {
            Box::new(Node { dr: Emulator::<Wireless<Empty, F>>::counter(), p, read: |_| None, live: vec![] })
        }
    }
}

/// A session, as it should be.
struct Twin<F: PrimeField, P: PoseidonPermutation<F>> {
    node: usize,
    at: usize,
    sponge: RefSponge<F, P>,
    what: What,
    heard: Heard,
}

impl<F: PrimeField, P: PoseidonPermutation<F>> Clone for Twin<F, P> {
    fn clone(&self) -> Self {
        Twin {
            node: self.node,
            at: self.at,
            sponge: self.sponge.clone(),
            what: self.what,
            heard: self.heard.clone(),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Full,
    Half { asked: bool },
    Bare,
    Gone,
}

/// The blocks a session has been through, which is all an answer may depend on.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct Heard {
    /// Where its state came from, if not from nothing.
    origin: Vec<u8>,
    blocks: Vec<Vec<Vec<u8>>>,
    pending: Vec<Vec<u8>>,
    squeezing: bool,
    given: usize,
}

impl Heard {
    fn close(&mut self, rate: usize, zero: &[u8]) {
        let mut b = std::mem::take(&mut self.pending);
        b.resize(rate, zero.to_vec());
        self.blocks.push(b);
    }
    fn tell(&mut self, v: Vec<u8>, rate: usize, zero: &[u8]) {
        if self.squeezing {
            self.squeezing = false;
            self.given = 0;
        } else if self.pending.len() == rate {
            self.close(rate, zero);
        }
        self.pending.push(v);
    }
    fn ask(&mut self, rate: usize, zero: &[u8]) {
        if !self.squeezing || self.given == rate {
            self.close(rate, zero);
            self.squeezing = true;
            self.given = 0;
        }
        self.given += 1;
    }
    fn key(&self) -> u64 {
        use std::hash::{DefaultHasher, Hash, Hasher};
        let mut h = DefaultHasher::new();
        (&self.origin, &self.blocks, &self.pending, self.squeezing, self.given).hash(&mut h);
        h.finish()
    }
}

fn bytes<F: PrimeField>(f: F) -> Vec<u8> {
    f.to_repr().as_ref().to_vec()
}

fn val<F: PrimeField>(v: u64) -> F {
    match v {
        0..16 => F::from(v),
        16..32 => -F::from(v - 15),
        _ => {
            let mut r = Rng::new(v);
            (0..4).fold(F::ZERO, |a, _| a * F::from(u64::MAX) + F::from(r.next()))
        }
    }
}

/// How a tag enters a transcript, from its documentation: its length, then its
/// bytes in chunks of sixteen as little-endian numbers.
fn tag_values<F: PrimeField>(tag: &[u8]) -> Vec<F> {
    let mut v = vec![F::from(tag.len() as u64)];
    for c in tag.chunks(16) {
        let mut x = F::ZERO;
        for b in c.iter().rev() {
            x = x * F::from(256) + F::from(*b as u64);
        }
        v.push(x);
    }
    v
}

fn play<F: PrimeField, P: PoseidonPermutation<F>>(case: &Case, p: &'static P, o: &mut Outcome) {
    let zero = bytes(F::ZERO);
    let mut hosts: Vec<Box<dyn Host<F>>> = case.nodes.iter().map(|k| host(*k, p)).collect();
    let mut counts = vec![0usize; hosts.len()];
    let mut twins: Vec<Twin<F, P>> = vec![];
    // What the disk holds: a state and where it came from.
    let mut disk: Vec<(Vec<F>, Heard)> = vec![];
    let mut last = vec![F::ONE; hosts.len()];
    // Answers by what was heard, and back.
    let mut said: HashMap<u64, F> = HashMap::new();
    let mut heard: HashMap<Vec<u8>, u64> = HashMap::new();
    for (step, act) in case.acts.iter().enumerate() {
        if !o.violations.is_empty() {
            return;
        }
        let pick = |s: u8, twins: &Vec<Twin<F, P>>| -> Option<usize> {
            let live: Vec<usize> = (0..twins.len()).filter(|i| twins[*i].what != What::Gone).collect();
            (!live.is_empty()).then(|| live[s as usize % live.len()])
        };
        o.steps += 1;
        let bad = |o: &mut Outcome, class: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| {
            o.fail(class, format!("action {step} ({act:?}): answered {got:?}, expected {want:?}"));
        };
        match act {
            Act::Open(..) | Act::Bare(_) => {
                let (n, tag) = match act {
                    Act::Open(n, t) => (n, Some(t)),
                    Act::Bare(n) => (n, None),
                    _ => unreachable!(),
                };
                let n = *n as usize % hosts.len();
                let got = hosts[n].open(tag.map(|t| &t[..]));
                if got != Ans::Done {
                    return bad(o, "refused", &got, &"a session");
                }
                let mut t = Twin {
                    node: n,
                    at: counts[n],
                    sponge: RefSponge::new(p),
                    what: if tag.is_some() { What::Full } else { What::Bare },
                    heard: Heard::default(),
                };
                counts[n] += 1;
                for v in tag.map(|t| tag_values::<F>(t)).unwrap_or_default() {
                    t.sponge.absorb(v);
                    t.heard.tell(bytes(v), P::RATE, &zero);
                }
                twins.push(t);
            }
            Act::Tell(s, v) => {
                let Some(i) = pick(*s, &twins) else { continue };
                let t = &mut twins[i];
                if matches!(t.what, What::Half { .. }) {
                    continue;
                }
                let v = val::<F>(*v);
                let got = hosts[t.node].tell(t.at, v);
                if got != Ans::Done {
                    return bad(o, "refused", &got, &"done");
                }
                t.sponge.absorb(v);
                t.heard.tell(bytes(v), P::RATE, &zero);
            }
            Act::Relay(s) => {
                let Some(i) = pick(*s, &twins) else { continue };
                let t = &mut twins[i];
                if matches!(t.what, What::Half { .. }) {
                    continue;
                }
                let v = last[t.node];
                let got = hosts[t.node].tell(t.at, v);
                if got != Ans::Done {
                    return bad(o, "refused", &got, &"done");
                }
                t.sponge.absorb(v);
                t.heard.tell(bytes(v), P::RATE, &zero);
            }
            Act::Ask(s) => {
                let Some(i) = pick(*s, &twins) else { continue };
                let t = &mut twins[i];
                let got = hosts[t.node].ask(t.at);
                let Some(want) = t.sponge.squeeze() else {
                    o.count("fault.misuse", 1);
                    if got != Ans::No("initialization") {
                        return bad(o, "misuse-accepted", &got, &"a refusal: nothing was absorbed");
                    }
                    continue;
                };
                t.heard.ask(P::RATE, &zero);
                if let What::Half { asked } = &mut t.what {
                    *asked = true;
                }
                match got {
                    Ans::Unseen if case.nodes[t.node] == Kind::Blind => {}
                    Ans::Value(v) => {
                        o.count("probe.challenges", 1);
                        last[t.node] = v;
                        o.mix(hash_bytes(7, &bytes(v)));
                        let k = t.heard.key();
                        if *said.entry(k).or_insert(v) != v {
                            return bad(o, "history-dependent", &v, &said[&k]);
                        }
                        // A damaged state may still give some of the old answers.
                        if t.heard.origin.is_empty() && *heard.entry(bytes(v)).or_insert(k) != k {
                            return bad(o, "unbound", &v, &"another answer: the histories differ");
                        }
                        if v != want {
                            return bad(o, "wrong-challenge", &v, &want);
                        }
                    }
                    x => return bad(o, "refused", &x, &want),
                }
            }
            Act::Fork(s) => {
                let Some(i) = pick(*s, &twins) else { continue };
                let mut t = twins[i].clone();
                if matches!(t.what, What::Half { .. }) {
                    continue;
                }
                let got = hosts[t.node].fork(t.at);
                if got != Ans::Done {
                    return bad(o, "refused", &got, &"a copy");
                }
                t.at = counts[t.node];
                counts[t.node] += 1;
                twins.push(t);
            }
            Act::Save(s, w) => {
                let Some(i) = pick(*s, &twins) else { continue };
                let t = &mut twins[i];
                if matches!(t.what, What::Half { .. }) {
                    continue;
                }
                t.what = What::Gone;
                let got = hosts[t.node].save(t.at, *w);
                match t.sponge.save() {
                    Err(squeezing) => {
                        o.count("fault.misuse", 1);
                        let want = if squeezing { "already squeezing" } else { "nothing absorbed" };
                        if got != Ans::No(want) {
                            return bad(o, "misuse-accepted", &got, &want);
                        }
                    }
                    Ok(st) => {
                        match got {
                            Ans::Unseen if case.nodes[t.node] == Kind::Blind => {}
                            Ans::State(v) if v == st => {}
                            x => return bad(o, "wrong-state", &x, &st),
                        }
                        o.count("probe.saves", 1);
                        let mut h = t.heard.clone();
                        h.close(P::RATE, &zero);
                        h.squeezing = true;
                        h.given = 0;
                        disk.push((st, h));
                    }
                }
            }
            Act::Wake(d, n) => {
                if disk.is_empty() {
                    continue;
                }
                let (st, h) = disk[*d as usize % disk.len()].clone();
                let n = *n as usize % hosts.len();
                // Every fifth state comes back as a bare sponge.
                let bare = *d % 5 == 4;
                let got = hosts[n].wake(&st, bare);
                if got != Ans::Done {
                    return bad(o, "refused", &got, &"a session");
                }
                o.count("probe.resumes", 1);
                twins.push(Twin {
                    node: n,
                    at: counts[n],
                    sponge: RefSponge::resume(p, st),
                    what: if bare { What::Bare } else { What::Half { asked: false } },
                    heard: h,
                });
                counts[n] += 1;
            }
            Act::Into(s) => {
                let halves: Vec<usize> =
                    (0..twins.len()).filter(|i| matches!(twins[*i].what, What::Half { .. })).collect();
                if halves.is_empty() {
                    continue;
                }
                let t = &mut twins[halves[*s as usize % halves.len()]];
                let asked = t.what == What::Half { asked: true };
                let got = hosts[t.node].revive(t.at);
                if asked {
                    t.what = What::Full;
                    if got != Ans::Done {
                        return bad(o, "refused", &got, &"done");
                    }
                } else {
                    o.count("fault.misuse", 1);
                    t.what = What::Gone;
                    if got != Ans::No("panic") {
                        return bad(o, "misuse-accepted", &got, &"a panic: a stored answer would be discarded");
                    }
                }
            }
            Act::Crash(n) => {
                let n = *n as usize % hosts.len();
                hosts[n] = host(case.nodes[n], p);
                counts[n] = 0;
                last[n] = F::ONE;
                o.count("fault.crash_node", 1);
                for t in &mut twins {
                    if t.node == n {
                        t.what = What::Gone;
                    }
                }
            }
            Act::Torn(a, b, k) => {
                if disk.len() < 2 {
                    continue;
                }
                let from = disk[*b as usize % disk.len()].0.clone();
                let k = *k as usize % P::T;
                let a = *a as usize % disk.len();
                let before = disk[a].0.clone();
                disk[a].0[k..].copy_from_slice(&from[k..]);
                if disk[a].0 != before {
                    o.count("fault.torn_write", 1);
                    disk[a].1 = Heard {
                        origin: disk[a].0.iter().flat_map(|f| bytes(*f)).collect(),
                        squeezing: true,
                        ..Heard::default()
                    };
                }
            }
            Act::Rot(a, k) => {
                if disk.is_empty() {
                    continue;
                }
                let a = *a as usize % disk.len();
                disk[a].0[*k as usize % P::T] += F::ONE;
                o.count("fault.altered_state", 1);
                disk[a].1 = Heard {
                    origin: disk[a].0.iter().flat_map(|f| bytes(*f)).collect(),
                    squeezing: true,
                    ..Heard::default()
                };
            }
        }
    }
}

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn budget(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 35 } else { 1500 }
    }
    fn rule(&self) -> &'static str {
        "a run is one seeded history of up to four nodes (checking, wired, wireless and witness-free drivers) that open, tell, ask, fork, save, crash, resume and misuse transcripts and sponges, with torn and altered stored states; non-trivial when it asks for at least two challenges; distinct by history"
    }
    fn warm(&self) {
        params();
    }
    fn generate(&self, seed: u64, tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let big = tier == Tier::Thorough && r.chance(1, 3);
        let n = 1 + r.below(4) as usize;
        let nodes = (0..n)
            .map(|_| {
                let k = if r.chance(1, 3) { 4 } else { 2 };
                KINDS[r.below(k) as usize]
            })
            .collect();
        let len = 4 + r.below(if big { 160 } else { 50 });
        // Runs that save often, runs that mostly talk, runs full of trouble.
        let mode = r.below(3);
        let u = |r: &mut Rng| r.below(256) as u8;
        let tag = |r: &mut Rng| -> Vec<u8> {
            let n = match r.below(4) {
                0 => 0,
                1 => [1, 15, 16, 17, 31, 32, 33][r.below(7) as usize],
                _ => r.below(40),
            };
            let flat = r.chance(1, 3);
            (0..n).map(|_| if flat { 0 } else { r.below(256) as u8 }).collect()
        };
        let mut acts = vec![Act::Open(u(&mut r), tag(&mut r))];
        for _ in 0..len {
            let x = r.below(100);
            acts.push(match (mode, x) {
                (_, 0..4) => Act::Open(u(&mut r), tag(&mut r)),
                (_, 4..6) => Act::Bare(u(&mut r)),
                (_, 6..38) => Act::Tell(u(&mut r), if r.chance(1, 2) { r.below(32) } else { r.next() >> 1 }),
                (_, 38..42) => Act::Relay(u(&mut r)),
                (_, 42..66) => Act::Ask(u(&mut r)),
                (0, 66..82) | (_, 66..73) => Act::Save(u(&mut r), r.chance(1, 2)),
                (0, _) | (_, 73..82) => Act::Wake(u(&mut r), u(&mut r)),
                (1, 82..96) | (_, 82..87) => Act::Into(u(&mut r)),
                (1, _) | (_, 87..91) => Act::Fork(u(&mut r)),
                (_, 91..94) => Act::Crash(u(&mut r)),
                (_, 94..97) => Act::Torn(u(&mut r), u(&mut r), u(&mut r)),
                _ => Act::Rot(u(&mut r), u(&mut r)),
            });
        }
        serde_json::to_value(Case { other: r.chance(1, 3), nodes, acts }).unwrap()
    }
    fn execute(&self, case: &Value) -> Outcome {
        let case: Case = serde_json::from_value(case.clone()).unwrap();
        let mut o = Outcome::default();
        if let Err(p) = guard(|| {
            if case.other {
                play(&case, Pasta::scalar_poseidon(params()), &mut o)
            } else {
                play(&case, Pasta::circuit_poseidon(params()), &mut o)
            }
        }) {
            o.fail("panic", format!("a session panicked: {p}"));
        }
        o.nontrivial = o.counters.get("probe.challenges").is_some_and(|n| *n > 1);
        o.distinct.push(hash_str(&serde_json::to_string(&case).unwrap()));
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let c: Case = serde_json::from_value(case.clone()).unwrap();
        let mut v = vec![];
        let n = c.acts.len();
        let mut cut = |acts: Vec<Act>| v.push(serde_json::to_value(Case { acts, ..c.clone() }).unwrap());
        for k in [n / 2, n * 3 / 4, n.saturating_sub(1)] {
            if k > 0 && k < n {
                cut(c.acts[..k].to_vec());
            }
        }
        for i in 0..n {
            let mut a = c.acts.clone();
            a.remove(i);
            cut(a);
        }
        if c.other {
            v.push(serde_json::to_value(Case { other: false, ..c.clone() }).unwrap());
        }
        v
    }
    fn components(&self) -> Value {
        json!({
            "real": ["ragu_pcd transcript", "ragu_primitives sponge, elements, Simulator", "ragu_core emulators"],
            "stub": ["nodes, their disk and the traffic between sessions (simulated)", "ff/pasta_curves (offline re-implementations in shims/)"]
        })
    }
}
