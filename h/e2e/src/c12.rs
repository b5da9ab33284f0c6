//! C12: what a native run recorded, the guest replays inside the VM.
use h_common::{ensure_same, ensure_that, Check, Fail, Obs, Verdict};
use mozak_sdk::common::types::{CanonicalOrderedTemporalHints, SystemTape};
use proptest::prelude::*;
use script::{Id, Op};
use serde::{Deserialize, Serialize};

use crate::gen::{self, pid};
use crate::tapes::{accept, castlist_root, events_root, prefixed, Claim, Parts, Tapes};
use crate::vm::{run, End};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History(pub Vec<Op>);

fn actor() -> impl Strategy<Value = Id> + Clone {
    prop_oneof![9 => (1u8..5).prop_map(|k| { let mut v = [0; 32]; v[31] = k; v[0] = 5 - k; v }), 1 => any::<[u8; 32]>()]
}
/// Calls from the root, each to another program than the one calling.
pub fn history() -> BoxedStrategy<Vec<Op>> {
    fn strip(me: Id, ops: Vec<Op>) -> Vec<Op> {
        ops.into_iter().filter_map(|o| match o {
            Op::Call { callee, .. } if callee == me || callee == [0; 32] => None,
            Op::Call { callee, arg, ret, body } => Some(Op::Call { callee, arg, ret, body: strip(callee, body) }),
            Op::Emit(_) | Op::Write { .. } if me == [0; 32] => None,
            o => Some(o),
        }).collect()
    }
    let leaf = prop_oneof![2 => gen::ev().prop_map(Op::Emit), 1 => (any::<bool>(), gen::data()).prop_map(|(public, data)| Op::Write { public, data })].boxed();
    let call = |body: BoxedStrategy<Vec<Op>>| (actor(), gen::val(), gen::val(), body).prop_map(|(callee, arg, ret, body)| Op::Call { callee, arg, ret, body }).boxed();
    let op = call(prop::collection::vec(leaf.clone(), 0..3).boxed())
        .prop_recursive(3, 12, 3, move |inner| call(prop::collection::vec(prop_oneof![2 => leaf.clone(), 3 => inner], 0..4).boxed()));
    prop::collection::vec(op, 1..4).prop_map(|ops| strip([0; 32], ops)).boxed()
}

fn replay(claim: &Claim, tapes: &Tapes, ops: &[Op]) -> Result<usize, Fail> {
    let want = accept(claim, ops).map_err(|e| format!("the reference refuses the native tape: {e}"))?;
    let r = run(ops, tapes);
    match r.end {
        End::Stopped(e) => Err(format!("program {:?} does not replay its part of the native run {ops:?}: {e}", claim.me).into()),
        End::Halted { steps, exit } => {
            ensure_same!(exit, 0, "exit code");
            let log = r.log.ok_or("the guest halted without finishing its script")?;
            ensure_that!(log == want, "program {:?} saw {log:?} instead of {want:?} in {ops:?}", claim.me);
            Ok(steps)
        }
    }
}

fn native(c: &History) -> Verdict {
    let d = crate::native::dump(&c.0).map_err(|e| format!("the native run failed: {e}"))?;
    let t: SystemTape = serde_json::from_str(&d.text).map_err(|e| format!("dumped tape does not read back: {e}"))?;
    let parts = Parts::of(&c.0);
    for (me, acts) in &parts.acts {
        let claim = parts.claim(*me);
        // the tapes themselves come from what the native side dumped
        let hints: Vec<CanonicalOrderedTemporalHints> = t.event_tape.writer.get(&pid(*me)).cloned().unwrap_or_default().get_canonical_order_temporal_hints();
        let tapes = Tapes {
            call: prefixed(&rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&t.call_tape.writer).unwrap()),
            event: prefixed(&rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&hints).unwrap()),
            private: prefixed(&t.private_input_tape.writer.get(&pid(*me)).map(|w| w.0.clone()).unwrap_or_default()),
            public: prefixed(&t.public_input_tape.writer.get(&pid(*me)).map(|w| w.0.clone()).unwrap_or_default()),
            ev_commit: events_root(&claim.events), cl_commit: castlist_root(&claim.calls), self_id: *me,
        };
        replay(&claim, &tapes, acts)?;
    }
    Ok(Obs::new(parts.acts.len() > 1).class(parts.depth > 1, "nested calls").class(parts.events.len() > 1, "several emitters")
        .class(parts.events.values().any(|e| e.len() > 1), "several events of one program").class(!parts.io[0].is_empty() || !parts.io[1].is_empty(), "tape input"))
}

fn compute(c: &History) -> Verdict {
    let claim = Parts::default().claim([7; 32]);
    replay(&claim, &claim.tapes(), &c.0)?;
    Ok(Obs::new(c.0.len() > 1).class(c.0.iter().any(|o| matches!(o, Op::Merkle(l) if l.len() > 2)), "trees"))
}
fn compute_ops() -> impl Strategy<Value = History> {
    let bytes = || prop_oneof![gen::data(), prop::collection::vec(any::<u8>(), 0..200)];
    let op = prop_oneof![
        bytes().prop_map(Op::HashPad),
        bytes().prop_map(|mut b| { b.resize((b.len() + 1).next_multiple_of(8), 3); Op::HashNoPad(b) }),
        prop::collection::vec((prop_oneof![0u64..6, any::<u64>(), (0u32..64).prop_map(|k| 1 << k)], gen::digest()), 0..7).prop_map(|mut l| { l.sort(); Op::Merkle(l) }),
        gen::ev().prop_map(Op::Canonical),
    ];
    prop::collection::vec(op, 1..5).prop_map(History)
}

pub fn check() -> ! {
    let mut c = Check::new("C12");
    let n = c.cases(4_000, 10);
    c.run("replay", "native histories of nested calls from the root, with events and input; every program that took part is run in the VM over its part; non-trivial = two programs took part", n, || history().prop_map(History), native);
    let n = c.cases(4_000, 10);
    c.run("compute", "hashes, trees and canonical events computed by the guest, against the reference; non-trivial = two operations", n, compute_ops, compute);
    c.finish()
}
