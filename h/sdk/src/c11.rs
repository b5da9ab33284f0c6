//! C11: what a native run leaves on the system tape.
use std::collections::BTreeMap;

use h_common::{ensure_same, ensure_that, Check, Fail, Obs, Verdict};
use mozak_sdk::common::types::SystemTape;
use proptest::prelude::*;
use rkyv::rancor::{Panic, Strategy as RS};
use rkyv::Deserialize as _;
use script::{Ev, Id, Op, Val};
use serde::{Deserialize, Serialize};

use crate::gen::{self, event, pid};

#[derive(Default)]
struct Model {
    stack: Vec<Id>,
    calls: Vec<(Id, Id, Val, Val)>,
    events: BTreeMap<Id, Vec<Ev>>,
    public: BTreeMap<Id, Vec<u8>>,
    private: BTreeMap<Id, Vec<u8>>,
    depth: usize,
    max_depth: usize,
}
impl Model {
    fn top(&self) -> Id { self.stack.last().copied().unwrap_or([0; 32]) }
    /// `Err` when the run must panic: an event or a write by nobody.
    fn run(&mut self, ops: &[Op]) -> Result<(), ()> {
        self.max_depth = self.max_depth.max(self.depth);
        for o in ops {
            match o {
                Op::AddId(p) => self.stack.push(*p),
                Op::RmId => { self.stack.pop(); }
                Op::Emit(e) => {
                    if self.top() == [0; 32] { return Err(()) }
                    self.events.entry(self.top()).or_default().push(e.clone());
                }
                Op::Write { public, data } => {
                    if self.top() == [0; 32] { return Err(()) }
                    let t = self.top();
                    if *public { &mut self.public } else { &mut self.private }.entry(t).or_default().extend(data);
                }
                Op::Call { callee, arg, ret, body } => {
                    self.calls.push((self.top(), *callee, arg.clone(), ret.clone()));
                    self.stack.push(*callee);
                    self.depth += 1;
                    self.run(body)?;
                    self.depth -= 1;
                    self.stack.pop();
                }
                _ => unreachable!(),
            }
        }
        Ok(())
    }
}

fn read_val(b: &[u8]) -> Val {
    let mut al = rkyv::util::AlignedVec::new();
    al.extend_from_slice(b);
    rkyv::access::<Val, Panic>(&al).unwrap().deserialize(RS::<_, Panic>::wrap(&mut ())).unwrap()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script(Vec<Op>);

fn oracle(c: &Script) -> Verdict {
    let mut m = Model::default();
    let fine = m.run(&c.0).is_ok();
    let d = match crate::native::dump(&c.0) {
        Ok(d) => d,
        Err(e) => {
            ensure_that!(!fine, "the native run failed: {e}");
            return Ok(Obs::new(c.0.len() > 1).class(true, "by nobody"));
        }
    };
    ensure_that!(fine, "an event or a tape write under the null identity was accepted");
    let t: SystemTape = serde_json::from_str(&d.text).map_err(|e| Fail::from(format!("dumped tape does not read back: {e}")))?;

    ensure_same!(t.call_tape.writer.len(), m.calls.len(), "number of calls");
    for (k, (got, (caller, callee, arg, ret))) in t.call_tape.writer.iter().zip(&m.calls).enumerate() {
        ensure_same!(got.caller, pid(*caller), "caller of call {k}");
        ensure_same!(got.callee, pid(*callee), "callee of call {k}");
        ensure_same!(read_val(&got.argument), *arg, "argument of call {k}");
        ensure_same!(read_val(&got.return_), *ret, "return value of call {k}");
    }
    for (name, tape, want) in [("public", &t.public_input_tape, &m.public), ("private", &t.private_input_tape, &m.private)] {
        let got: BTreeMap<Id, Vec<u8>> = tape.writer.iter().map(|(p, b)| (p.inner(), b.0.clone())).collect();
        ensure_same!(got, *want, "{name} tapes");
    }
    let got: Vec<Id> = t.event_tape.writer.keys().map(|p| p.inner()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    ensure_same!(got, m.events.keys().copied().collect::<Vec<_>>(), "programs with events");
    for (p, evs) in &m.events {
        let o = &t.event_tape.writer[&pid(*p)];
        let got: Vec<_> = o.get_temporal_order_canonical_hints().into_iter().map(|x| x.0).collect();
        ensure_that!(got == evs.iter().map(event).collect::<Vec<_>>(), "events of {p:?} are {got:?}");
        ensure_same!(o.canonical_hash().0, crate::model::events_root(evs), "commitment of {p:?}");
    }
    ensure_that!(d.debug.contains("call_tape") && (m.calls.is_empty() || d.debug.contains(&format!("{:?}", pid(m.calls[0].1)))), "the debug dump does not show the calls");
    Ok(Obs::new(m.calls.len() > 1 || m.events.len() > 1).class(m.max_depth > 1, "nested calls").class(m.events.len() > 1, "several emitters").class(m.calls.iter().any(|c| c.0 == c.1), "self call"))
}

pub fn check() -> ! {
    let mut c = Check::new("C11");
    let n = c.cases(3_000, 10);
    c.run("native", "histories of identities, nested calls (each resolved by running its own part of the history), events and tape writes, run by the SDK in a process of its own; non-trivial = two calls or two emitters", n,
        || (prop::option::weighted(0.85, gen::id()), gen::native_ops()).prop_map(|(p, mut ops)| { if let Some(p) = p { ops.insert(0, Op::AddId(p)); } Script(ops) }), oracle);
    c.finish()
}
