//! What the prover hands a guest, laid out from the documentation, and a
//! reference for what a guest must accept.
use mozak_sdk::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, Poseidon2Hash, RawMessage, StateAddress};
use script::{Ev, Id, Op, Out, Val};
use serde::{Deserialize, Serialize};

use crate::gen::{event_type, pid};
use crate::model::{node, root_in_order, Canon};

#[derive(Clone, Debug, Default)]
pub struct Tapes { pub private: Vec<u8>, pub public: Vec<u8>, pub call: Vec<u8>, pub event: Vec<u8>, pub ev_commit: Id, pub cl_commit: Id, pub self_id: Id }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Msg { pub caller: Id, pub callee: Id, pub arg: Val, pub ret: Val }

/// The claims a guest gets to see, before serialization.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Claim {
    pub me: Id,
    pub calls: Vec<Msg>,
    pub events: Vec<(Ev, u32)>,
    pub ev_commit: Id,
    pub cl_commit: Id,
    pub public: Vec<u8>,
    pub private: Vec<u8>,
}

pub fn prefixed(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend(b);
    v
}
pub fn val_bytes(v: &Val) -> Vec<u8> { rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(v).unwrap().to_vec() }

pub fn castlist(calls: &[Msg]) -> Vec<Id> { calls.iter().map(|m| m.callee).collect::<std::collections::BTreeSet<_>>().into_iter().collect() }
pub fn castlist_root(calls: &[Msg]) -> Id {
    let mut l: Vec<(u64, Id)> = castlist(calls).into_iter().enumerate().map(|(i, p)| (i as u64, p)).collect();
    root_in_order(&mut l)
}
pub fn events_root(events: &[(Ev, u32)]) -> Id {
    let mut l: Vec<(u64, Id)> = events.iter().map(|(e, _)| (u64::from_le_bytes(e.address), Canon::of(e).hash())).collect();
    root_in_order(&mut l)
}
/// Canonical order, each with the canonical place of the event emitted at that time.
pub fn canonical(events: &[Ev]) -> Vec<(Ev, u32)> {
    let mut v: Vec<(Canon, usize)> = events.iter().map(Canon::of).zip(0..).collect();
    v.sort();
    let mut place = vec![0; events.len()];
    for (k, (_, t)) in v.iter().enumerate() { place[*t] = k as u32; }
    v.iter().zip(place).map(|((_, t), p)| (events[*t].clone(), p)).collect()
}

impl Claim {
    pub fn tapes(&self) -> Tapes {
        let calls: Vec<CrossProgramCall> = self.calls.iter().map(|m| CrossProgramCall {
            caller: pid(m.caller), callee: pid(m.callee), argument: RawMessage(val_bytes(&m.arg)), return_: RawMessage(val_bytes(&m.ret)),
        }).collect();
        let events: Vec<CanonicalOrderedTemporalHints> = self.events.iter().map(|(e, h)| {
            let c = Canon::of(e);
            CanonicalOrderedTemporalHints(CanonicalEvent { address: StateAddress(c.address), type_: event_type(c.kind), value: Poseidon2Hash(c.value) }, *h)
        }).collect();
        Tapes {
            private: prefixed(&self.private), public: prefixed(&self.public),
            call: prefixed(&rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&calls).unwrap()),
            event: prefixed(&rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&events).unwrap()),
            ev_commit: self.ev_commit, cl_commit: self.cl_commit, self_id: self.me,
        }
    }
}

/// The log of a guest running `ops` on these claims, or why it must refuse them.
pub fn accept(c: &Claim, ops: &[Op]) -> Result<Vec<u8>, String> {
    const ROOT: Id = [0; 32];
    let cast = castlist(&c.calls);
    let known = |p: &Id| *p == ROOT || cast.contains(p);
    let mut log = Out::default();
    let (mut at, mut now) = (0, 0);
    let mut seen = vec![false; c.events.len()];
    let mut tapes = [(&c.private, 0usize), (&c.public, 0usize)];
    for (k, op) in ops.iter().enumerate() {
        match op {
            Op::Call { callee, arg, .. } => {
                while c.calls.get(at).is_some_and(|m| m.caller != c.me && m.callee != c.me) { at += 1; }
                let m = c.calls.get(at).ok_or(format!("step {k} makes a call that is not on the tape"))?;
                if m.caller != c.me || m.callee != *callee || m.arg != *arg { return Err(format!("step {k} makes another call than message {at}")); }
                at += 1;
                log.val(&m.ret);
            }
            Op::Receive => {
                let mut got = None;
                while got.is_none() && at < c.calls.len() {
                    let m = &c.calls[at];
                    if m.caller == c.me { return Err(format!("message {at} claims a call the program did not make")); }
                    if m.callee == c.me { got = Some(m); }
                    at += 1;
                }
                match got {
                    None => log.u8(0),
                    Some(m) => {
                        if !known(&m.caller) { return Err(format!("message {} comes from outside the cast list", at - 1)); }
                        log.u8(1);
                        log.raw(&m.caller);
                        log.val(&m.arg);
                        log.val(&m.ret);
                    }
                }
            }
            Op::Emit(e) => {
                let h = c.events.get(now).ok_or(format!("step {k} emits more events than the tape holds"))?.1 as usize;
                let claimed = c.events.get(h).ok_or(format!("event hint {now} points outside the tape"))?;
                if seen[h] { return Err(format!("event {h} is used twice")); }
                seen[h] = true;
                if Canon::of(&claimed.0) != Canon::of(e) { return Err(format!("step {k} emits another event than claimed")); }
                now += 1;
            }
            Op::Len { public } => log.u32(tapes[usize::from(*public)].0.len() as u32),
            Op::Read { public, n } => {
                let (t, p) = &mut tapes[usize::from(*public)];
                let m = (*n as usize).min(t.len() - *p);
                let mut b = t[*p..*p + m].to_vec();
                *p += m;
                b.resize(*n as usize, 0xee);
                log.u32(m as u32);
                log.bytes(&b);
            }
            Op::HashPad(b) => log.raw(&crate::model::sponge_padded(b)),
            Op::HashNoPad(b) => if b.len() % 8 == 0 { log.raw(&crate::model::sponge(b)) } else { return Err("unpadded input".into()) },
            Op::Merkle(l) => log.raw(&root_in_order(&mut l.clone())),
            Op::Canonical(e) => {
                let c = Canon::of(e);
                log.raw(&c.address);
                log.u8(c.kind);
                log.raw(&c.value);
                log.raw(&c.hash());
            }
            o => unreachable!("{o:?}"),
        }
    }
    if at != c.calls.len() { return Err(format!("message {at} of the call tape was not looked at")); }
    if now != c.events.len() { return Err("not every event of the tape was emitted".into()); }
    if c.ev_commit != events_root(&c.events) { return Err("the events commitment is another".into()); }
    if c.cl_commit != castlist_root(&c.calls) { return Err("the cast list commitment is another".into()); }
    Ok(log.0)
}

/// `node` of the reference, for commitments that are wrong but look alike.
pub fn twist(a: Id) -> Id { node(a, a) }

/// The claim of one program over a history, and what it does in it, in order.
#[derive(Default)]
pub struct Parts { pub calls: Vec<Msg>, pub acts: std::collections::BTreeMap<Id, Vec<Op>>, pub events: std::collections::BTreeMap<Id, Vec<Ev>>, pub io: [std::collections::BTreeMap<Id, Vec<u8>>; 2], pub depth: usize }
impl Parts {
    pub fn of(ops: &[Op]) -> Parts {
        let mut p = Parts::default();
        p.walk([0; 32], ops, 0);
        for a in p.acts.values_mut() { a.push(Op::Receive); }
        p
    }
    fn act(&mut self, who: Id, op: Op) { if who != [0; 32] { self.acts.entry(who).or_default().push(op) } }
    fn walk(&mut self, me: Id, ops: &[Op], depth: usize) {
        self.depth = self.depth.max(depth);
        for o in ops {
            match o {
                Op::Emit(e) => {
                    self.events.entry(me).or_default().push(e.clone());
                    self.act(me, o.clone());
                }
                Op::Write { public, data } => {
                    self.io[usize::from(*public)].entry(me).or_default().extend(data);
                    self.act(me, Op::Read { public: *public, n: data.len() as u32 });
                }
                Op::Call { callee, arg, ret, body } => {
                    self.calls.push(Msg { caller: me, callee: *callee, arg: arg.clone(), ret: ret.clone() });
                    self.act(me, Op::Call { callee: *callee, arg: arg.clone(), ret: ret.clone(), body: vec![] });
                    self.act(*callee, Op::Receive);
                    self.walk(*callee, body, depth + 1);
                }
                o => unreachable!("{o:?}"),
            }
        }
    }
    pub fn claim(&self, me: Id) -> Claim {
        let events = canonical(self.events.get(&me).map_or(&[], |v| v));
        Claim {
            me, ev_commit: events_root(&events), cl_commit: castlist_root(&self.calls), calls: self.calls.clone(), events,
            private: self.io[0].get(&me).cloned().unwrap_or_default(), public: self.io[1].get(&me).cloned().unwrap_or_default(),
        }
    }
}
