//! C19: a change of the state is proved only if the events of the block ask for it, and then it is.
use std::sync::OnceLock;

use h_common::{ensure_same, ensure_that, guarded, Check, Obs, Verdict};
use itertools::Either;
use mozak_recproofs::circuits::accumulate_delta as acc;
use mozak_recproofs::circuits::match_delta as md;
use mozak_recproofs::{Event, EventType as Ty};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::world::*;

pub const TYPES: [Ty; 6] = [Ty::Write, Ty::Ensure, Ty::Read, Ty::GiveOwner, Ty::TakeOwner, Ty::CreditDelta];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ev { pub ty: u8, pub owner: V, pub value: V }
impl Ev {
    pub fn real(&self, address: u64) -> Event<F> { Event { owner: fs(self.owner), ty: TYPES[self.ty as usize], address, value: fs(self.value) } }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct One {
    pub addr: u64,
    pub height: u64,
    pub old: Obj,
    pub new: Obj,
    pub events: Vec<Ev>,
    /// An event of another address slipped in among the events.
    pub stray: Option<u64>,
    /// Which neighbours are merged next.
    pub shape: Vec<u8>,
    /// A word of the accumulated events replaced by another.
    pub forged: Option<(u16, u64)>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case { objs: Vec<One>, shape: Vec<u8>, forged: Option<(u16, u64)> }

pub struct Aux { al: acc::LeafCircuit<F, C, D>, ab: acc::BranchCircuit<F, C, D>, ml: md::LeafCircuit<F, C, D>, mb: md::BranchCircuit<F, C, D> }
pub fn aux() -> &'static Aux {
    static A: OnceLock<Aux> = OnceLock::new();
    A.get_or_init(|| {
        let al = acc::LeafCircuit::new(&CONFIG);
        let ab = acc::BranchCircuit::new(&CONFIG, &al);
        let ml = md::LeafCircuit::new(&CONFIG, &ab);
        let mb = md::BranchCircuit::new(&CONFIG, &ml);
        Aux { al, ab, ml, mb }
    })
}

/// The change of credits that the events ask for; none if an event is no event.
fn delta(events: &[Ev]) -> Option<i128> {
    events.iter().filter(|e| e.ty == 5).map(|e| match (e.value[0] < 1 << 40, e.value[3]) {
        (true, 0) => Some(i128::from(e.value[0])),
        (true, 1) => Some(-i128::from(e.value[0])),
        _ => None,
    }).sum()
}

/// What others than the owner do to the credits.
fn strangers(o: &One) -> Vec<Ev> { o.events.iter().filter(|e| e.ty == 5 && e.owner != o.old.owner && e.value[0] != 0).cloned().collect() }

/// Why the events do not justify the change, if they do not.
pub fn objection(o: &One) -> Option<&'static str> {
    let n = |t: u8| o.events.iter().filter(|e| e.ty == t).count();
    let (old, new) = (&o.old, &o.new);
    if n(0) > 1 { return Some("two writes"); }
    if n(3) > 1 || n(4) > 1 || n(3) != n(4) { return Some("a giver without a taker"); }
    for e in &o.events {
        match e.ty {
            0 if e.owner != old.owner => return Some("a write by another than the owner"),
            3 if e.owner != old.owner => return Some("a gift by another than the owner"),
            _ => {}
        }
        match e.ty {
            0 if e.value != new.data => return Some("the data is not what was written"),
            1 if e.value != new.data => return Some("the data is not what was ensured"),
            2 if e.value != old.data => return Some("the data was not what was read"),
            3 if e.value != new.owner => return Some("the owner is not who was given"),
            4 if e.owner != new.owner => return Some("the owner is not the taker"),
            4 if e.value != old.owner => return Some("the owner was not who it was taken from"),
            _ => {}
        }
    }
    if n(0) == 0 && old.data != new.data { return Some("data changed unwritten"); }
    if n(3) == 0 && old.owner != new.owner { return Some("owner changed ungiven"); }
    if n(3) == 1 && (old.owner == [0; 4]) == (new.owner == [0; 4]) { return Some("neither made nor deleted"); }
    match delta(&o.events) {
        None => return Some("no such transfer"),
        Some(d) => if (i128::from(old.credits) + d).rem_euclid(i128::from(P)) != i128::from(new.credits) { return Some("the credits do not add up"); }
    }
    if delta(&strangers(o)) != Some(0) { return Some("credits moved by another than the owner"); }
    if o.stray.is_some() && o.events.len() > 1 { return Some("an event of another object"); }
    None
}

/// What is left of several things after merging neighbours in the order asked for.
fn fold<T>(mut v: Vec<T>, shape: &[u8], mut merge: impl FnMut(T, T) -> Result<T, String>) -> Result<T, String> {
    let mut k = 0;
    while v.len() > 1 {
        let i = shape.get(k).copied().unwrap_or(0) as usize % (v.len() - 1);
        k += 1;
        let r = v.remove(i + 1);
        let l = v.remove(i);
        v.insert(i, merge(l, r)?);
    }
    Ok(v.pop().unwrap())
}

type AccProof = Either<acc::LeafProof<F, C, D>, acc::BranchProof<F, C, D>>;
type MatchProof = Either<md::LeafProof<F, C, D>, md::BranchProof<F, C, D>>;

fn accumulate(o: &One) -> Result<(acc::BranchProof<F, C, D>, H), String> {
    let a = aux();
    let mut leaves = vec![];
    for (i, e) in o.events.iter().enumerate() {
        let e = e.real(if i == 0 && o.events.len() > 1 { o.stray.unwrap_or(o.addr) } else { o.addr });
        let p = guarded(|| a.al.prove(&a.ab, e.address, e.owner, e.ty, e.value))?.map_err(|e| e.to_string())?;
        a.al.verify(p.clone()).map_err(|e| format!("event: {e}"))?;
        leaves.push((AccProof::Left(p), e.hash()));
    }
    let (p, h) = fold(leaves, &o.shape, |(l, hl), (r, hr)| {
        let p = guarded(|| a.ab.prove(&l, &r))?.map_err(|e| e.to_string())?;
        a.ab.verify(p.clone()).map_err(|e| format!("events: {e}"))?;
        Ok((Either::Right(p), pair(hl, hr)))
    })?;
    let p = match p {
        Either::Left(p) => guarded(|| a.ab.prove_one(&p))?.map_err(|e| e.to_string())?,
        Either::Right(p) => p,
    };
    a.ab.verify(p.clone()).map_err(|e| format!("one event: {e}"))?;
    Ok((p, h))
}

pub fn forge(pis: &mut [F], at: (u16, u64)) -> bool {
    let i = at.0 as usize % pis.len();
    let was = pis[i];
    pis[i] = f(at.1);
    was != pis[i]
}

/// The proof that the object changes that way, and the hashes it has to show.
fn one(o: &One) -> Result<(md::LeafProof<F, C, D>, H, H, bool), String> {
    let a = aux();
    let (mut p, events) = accumulate(o)?;
    let forged = o.forged.is_some_and(|x| forge(&mut p.proof.public_inputs, x));
    let v = md::LeafWitnessValue {
        block_height: o.height, last_updated: o.old.updated,
        old_owner: fs(o.old.owner), new_owner: fs(o.new.owner), old_data: fs(o.old.data), new_data: fs(o.new.data),
        old_credits: o.old.credits, new_credits: o.new.credits,
    };
    let q = guarded(|| a.ml.prove(&a.mb, &p, v))?.map_err(|e| e.to_string())?;
    a.ml.verify(q.clone()).map_err(|e| format!("match: {e}"))?;
    let touched = o.events.iter().any(|e| e.ty == 0 || e.ty == 3) || o.old.credits != o.new.credits;
    let updated = if o.new.owner == [0; 4] { 0 } else if touched { o.height } else { o.old.updated };
    Ok((q, events, summary(o.addr, o.old.hash(), Obj { updated, ..o.new }.hash()), forged))
}

fn judge(c: &Case) -> Verdict {
    let a = aux();
    let mut leaves = vec![];
    let mut obs = Obs::new(c.objs.iter().any(|o| o.events.len() > 1));
    for o in &c.objs {
        let why = objection(o);
        // Whether an object that exists neither before nor after can be read is left open.
        // So is whether others may move credits there and back.
        let open = o.old.owner == [0; 4] && o.new.owner == [0; 4] || !strangers(o).is_empty();
        match (one(o), why) {
            (Ok((_, _, _, true)), _) => return Err("a match over a forged accumulation is accepted".into()),
            (Ok(_), Some(w)) => return Err(format!("a change is proved although there is {w}").into()),
            (Ok((p, e, s, _)), None) => {
                ensure_same!(p.events(), e, "the event root that the match shows");
                ensure_same!(p.state_hash(), s, "the state change that the match shows");
                ensure_same!(p.block_height(), o.height, "the block height that the match shows");
                leaves.push((MatchProof::Left(p), e, s, o.height));
            }
            (Err(e), None) if !open && o.forged.is_none() => return Err(format!("a change that its events ask for cannot be proved: {e}").into()),
            (Err(_), w) => obs = obs.class(true, w.unwrap_or("open or forged")),
        }
    }
    if leaves.len() < c.objs.len() { return Ok(obs); }
    let heights: Vec<u64> = leaves.iter().map(|l| l.3).collect();
    let same = heights.iter().all(|h| *h == heights[0]);
    let mut left = c.forged;
    let mut forged = false;
    let got = fold(leaves, &c.shape, |(mut l, le, ls, h), (r, re, rs, _)| {
        if let Some(x) = left.take() {
            forged = forge(match &mut l { Either::Left(p) => &mut p.proof.public_inputs, Either::Right(p) => &mut p.proof.public_inputs }, x);
        }
        let p = guarded(|| a.mb.prove(&l, &r))?.map_err(|e| e.to_string())?;
        a.mb.verify(p.clone()).map_err(|e| format!("matches: {e}"))?;
        Ok((Either::Right(p), pair(le, re), pair(ls, rs), h))
    });
    match got {
        Ok((p, e, s, h)) => {
            ensure_that!(!forged, "a match over a forged match is accepted");
            ensure_that!(same, "matches of different blocks are put together");
            let p = match p {
                Either::Left(p) => {
                    let q = guarded(|| a.mb.prove_one(&p)).map_err(|e| format!("a single match: {e}"))?.map_err(|e| e.to_string())?;
                    a.mb.verify(q.clone()).map_err(|e| format!("a single match: {e}"))?;
                    q
                }
                Either::Right(p) => p,
            };
            ensure_same!(p.events(), e, "the event root of the block");
            ensure_same!(p.state_hash(), s, "the state change of the block");
            ensure_same!(p.block_height(), h, "the height of the block");
            Ok(obs.class(true, "proved"))
        }
        Err(e) => {
            ensure_that!(!same || c.forged.is_some(), "changes of one block cannot be put together: {e}");
            Ok(obs.class(true, "matches refused"))
        }
    }
}

pub fn word() -> impl Strategy<Value = u64> + Clone { prop_oneof![4 => 0u64..3, 2 => any::<u64>(), 1 => Just(P - 1), 1 => Just(1u64 << 32), 1 => Just(255u64), 1 => Just(0xffff_ffffu64)].prop_map(|v| v % P) }
pub fn value() -> impl Strategy<Value = V> + Clone { prop_oneof![3 => [word(), word(), word(), word()], 1 => Just([0; 4]), 1 => (0usize..4, word()).prop_map(|(i, w)| { let mut v = [0; 4]; v[i] = w; v })] }
fn owner() -> impl Strategy<Value = V> + Clone { value().prop_map(|v| if v == [0; 4] { [0, 1, 0, 0] } else { v }) }

/// A change and events that ask for it.
fn sound() -> impl Strategy<Value = One> {
    let obj = (owner(), 0u64..5, prop_oneof![0u64..9, (0u64..P)], value()).prop_map(|(owner, updated, credits, data)| Obj { owner, updated, credits, data });
    let amounts = proptest::collection::vec((prop_oneof![0u64..9, 0u64..1 << 40], any::<bool>()), 0..4);
    (obj, (owner(), value()), 0u8..6, (any::<bool>(), any::<bool>(), 0usize..3, 0usize..3), amounts, (prop_oneof![0u64..9, 0u64..P], 1u64..1000), value(), proptest::collection::vec(any::<u8>(), 0..10), proptest::collection::vec(any::<u16>(), 12)).prop_map(
        |(mut old, (other, data), mode, (write, keep, reads, ensures), amounts, (addr, height), third, shape, keys)| {
            let mut new = old;
            let mut events = vec![];
            if mode == 0 { old.owner = [0; 4]; }
            if mode == 1 { new.owner = [0; 4]; }
            if mode < 2 {
                events.push(Ev { ty: 3, owner: old.owner, value: new.owner });
                events.push(Ev { ty: 4, owner: new.owner, value: old.owner });
            }
            if write {
                if !keep { new.data = data; }
                events.push(Ev { ty: 0, owner: old.owner, value: new.data });
            }
            for i in 0..reads { events.push(Ev { ty: 2, owner: [other, old.owner][i % 2], value: old.data }); }
            for i in 0..ensures { events.push(Ev { ty: 1, owner: [other, third][i % 2], value: new.data }); }
            for (n, neg) in amounts {
                let m = i128::from(n) * if neg { -1 } else { 1 };
                new.credits = (i128::from(new.credits) + m).rem_euclid(i128::from(P)) as u64;
                events.push(Ev { ty: 5, owner: old.owner, value: [n, third[1], third[2], u64::from(neg)] });
            }
            if events.is_empty() { events.push(Ev { ty: 2, owner: other, value: old.data }); }
            let mut v: Vec<(u16, Ev)> = keys.iter().copied().cycle().zip(events).collect();
            v.sort_by_key(|x| x.0);
            One { addr, height, old, new, events: v.into_iter().map(|x| x.1).collect(), stray: None, shape, forged: None }
        })
}

fn spoil(o: &mut One, kind: u8, at: usize, v: V, w: u64) {
    let n = o.events.len();
    let e = &mut o.events[at % n];
    let word = at / 7 % 4;
    match kind {
        0 => e.owner = v,
        1 => e.value = v,
        2 => e.value[word] = w,
        3 => e.owner[word] = w,
        4 => e.ty = (w % 6) as u8,
        5 => { let e = e.clone(); o.events.push(e); }
        6 => if n > 1 { o.events.remove(at % n); },
        7 => o.new.data[word] = w,
        8 => o.old.data[word] = w,
        9 => o.new.owner = v,
        10 => o.old.owner = v,
        11 => o.new.owner[word] = w,
        12 => o.new.credits = w,
        13 => o.old.credits = (o.old.credits + 1) % P,
        14 => { o.new.owner = o.old.owner; }
        15 => if w != o.addr && n > 1 { o.stray = Some(w); },
        16 => { o.events.push(Ev { ty: 0, owner: v, value: o.new.data }); }
        17 => { o.events.push(Ev { ty: 5, owner: v, value: [w, 0, 0, w % 3] }); }
        18 => { o.events.push(Ev { ty: 1, owner: v, value: o.old.data }); }
        19 => { o.events.push(Ev { ty: 3, owner: o.old.owner, value: o.new.owner }); }
        _ => { for e in &mut o.events { if e.ty == 0 || e.ty == 3 { e.owner = v; } } }
    }
}

fn ones() -> impl Strategy<Value = One> {
    let bad = proptest::collection::vec((0u8..21, any::<prop::sample::Index>(), value(), word()), 0..3);
    (sound(), prop_oneof![1 => Just(vec![]), 2 => bad], proptest::option::weighted(0.05, (any::<u16>(), word()))).prop_map(|(mut o, bad, forged)| {
        for (k, i, v, w) in bad { spoil(&mut o, k, i.index(1000), v, w); }
        o.forged = forged;
        o
    })
}
fn cases() -> impl Strategy<Value = Case> {
    prop_oneof![
        2 => ones().prop_map(|o| Case { objs: vec![o], shape: vec![], forged: None }),
        1 => (proptest::collection::vec(sound(), 1..5), proptest::collection::vec(any::<u8>(), 0..5), proptest::option::weighted(0.1, (any::<u16>(), word())), any::<u8>()).prop_map(|(mut objs, shape, forged, odd)| {
            let n = objs.len();
            let h = objs[0].height;
            for (i, o) in objs.iter_mut().enumerate() { if odd > 60 || odd as usize % n != i { o.height = h; } }
            Case { objs, shape, forged }
        }),
    ]
}

pub fn check() -> ! {
    let mut c = Check::new("C19");
    c.assume("Proofs are made and verified by the stand-in for plonky2: its gates are evaluated, its commitments are not.");
    c.run("changes", "some object has more than one event", c.cases(60000, 15), cases, judge);
    c.finish()
}
