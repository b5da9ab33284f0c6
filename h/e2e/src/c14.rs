//! C14: a guest that panics or aborts ends the run as a failure.
use h_common::{Check, Obs, Verdict};
use proptest::prelude::*;
use script::Op;
use serde::{Deserialize, Serialize};

use crate::gen;
use crate::tapes::Parts;
use crate::vm::{run, End, REFUSED};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case(Vec<Op>);

fn oracle(c: &Case) -> Verdict {
    let claim = Parts::default().claim([7; 32]);
    let bad = c.0.iter().any(|o| matches!(o, Op::Panic(_)));
    match (run(&c.0, &claim.tapes()).end, bad) {
        (End::Halted { steps, .. }, true) => Err(format!("the guest panicked in {:?}, and the VM reports {steps} executed instructions and a clean halt", c.0).into()),
        (End::Stopped(e), true) if !e.starts_with(REFUSED) => Err(format!("the guest panicked in {:?}, which the VM must report as an error: {e}", c.0).into()),
        (End::Stopped(e), false) => Err(format!("{:?} does not panic, but the run failed: {e}", c.0).into()),
        _ => Ok(Obs::new(bad)),
    }
}

pub fn check() -> ! {
    let mut c = Check::new("C14");
    let n = c.cases(12_000, 10);
    let op = || prop_oneof![
        3 => (0u8..6).prop_map(Op::Panic),
        2 => prop::collection::vec(any::<u8>(), 0..90).prop_map(Op::HashPad),
        2 => gen::ev().prop_map(Op::Canonical),
        1 => Just(Op::Receive),
        1 => any::<bool>().prop_map(|public| Op::Len { public }),
        1 => prop::collection::vec((0u64..6, gen::digest()), 0..5).prop_map(|mut l| { l.sort(); Op::Merkle(l) }),
    ];
    c.run("panics", "scripts that panic, abort, unwrap nothing, index out of bounds, overflow an assertion, or do none of it; non-trivial = one that must not complete", n,
        || prop::collection::vec(op(), 1..6).prop_map(Case), oracle);
    c.finish()
}
