//! C13: the guest accepts a set of tapes exactly if they fit what it does.
use h_common::{ensure_same, ensure_that, Check, Obs, Verdict};
use proptest::prelude::*;
use script::{Id, Op};
use serde::{Deserialize, Serialize};

use crate::c12::history;
use crate::tapes::{accept, castlist_root, events_root, twist, Claim, Msg, Parts};
use crate::vm::{run, End};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    DropCall(usize), DupCall(usize), SwapCalls(usize),
    Caller(usize, Who), Callee(usize, Who), Arg(usize, u8), Ret(usize, u8),
    Insert(usize, Who, Who, u8),
    DropEvent(usize), DupEvent(usize), SwapEvents(usize), Event(usize, u8, u8), Hint(usize, u32), SwapHints(usize, usize),
    EvCommit(u8), ClCommit(u8), Me(Who),
    DropAct(usize), DupAct(usize), SwapActs(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Who { Me, Root, Cast(usize), Stranger(u8) }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { ops: Vec<Op>, who: usize, tampers: Vec<Tamper>, recommit: bool }

fn resolve(w: &Who, c: &Claim) -> Id {
    let cast = crate::tapes::castlist(&c.calls);
    match w {
        Who::Me => c.me,
        Who::Root => [0; 32],
        Who::Cast(k) => cast.get(k % cast.len().max(1)).copied().unwrap_or([9; 32]),
        Who::Stranger(b) => { let mut v = c.me; v[usize::from(*b) % 32] ^= 1 + b / 32; v }
    }
}
fn flip(id: &mut Id, b: u8) { id[usize::from(b) % 32] ^= 1 << (b / 32) }

fn apply(t: &Tamper, c: &mut Claim, acts: &mut Vec<Op>) {
    let (n, m, a) = (c.calls.len(), c.events.len(), acts.len());
    match t {
        Tamper::Insert(k, from, to, v) => {
            let msg = c.calls.get(*k % n.max(1)).cloned();
            let (caller, callee) = (resolve(from, c), resolve(to, c));
            let (mut arg, ret) = msg.map_or(Default::default(), |m| (m.arg, m.ret));
            arg.tag ^= u32::from(v & 1);
            c.calls.insert(k % (n + 1), Msg { caller, callee, arg, ret });
        }
        Tamper::EvCommit(b) => if *b == 255 { c.ev_commit = twist(c.ev_commit) } else { flip(&mut c.ev_commit, *b) },
        Tamper::ClCommit(b) => if *b == 255 { c.cl_commit = twist(c.cl_commit) } else { flip(&mut c.cl_commit, *b) },
        Tamper::Me(w) => c.me = resolve(w, c),
        Tamper::DropCall(k) if n > 0 => { c.calls.remove(k % n); }
        Tamper::DupCall(k) if n > 0 => { let x = c.calls[k % n].clone(); c.calls.insert(k % n, x); }
        Tamper::SwapCalls(k) if n > 1 => c.calls.swap(k % (n - 1), k % (n - 1) + 1),
        Tamper::Caller(k, w) if n > 0 => c.calls[k % n].caller = resolve(w, c),
        Tamper::Callee(k, w) if n > 0 => c.calls[k % n].callee = resolve(w, c),
        Tamper::Arg(k, b) if n > 0 => if *b & 1 == 0 { c.calls[k % n].arg.tag ^= 1 << (b % 32) } else { c.calls[k % n].arg.data.push(*b) },
        Tamper::Ret(k, b) if n > 0 => c.calls[k % n].ret.tag ^= 1 << (b % 32),
        Tamper::DropEvent(k) if m > 0 => { c.events.remove(k % m); }
        Tamper::DupEvent(k) if m > 0 => { let x = c.events[k % m].clone(); c.events.insert(k % m, x); }
        Tamper::SwapEvents(k) if m > 1 => c.events.swap(k % (m - 1), k % (m - 1) + 1),
        Tamper::Event(k, f, b) if m > 0 => {
            let e = &mut c.events[k % m].0;
            match f % 3 {
                0 => e.kind = (e.kind + 1 + b % 4) % 5,
                1 => e.address[usize::from(b % 8)] ^= 1 << (b / 32),
                _ => e.data.push(*b),
            }
        }
        Tamper::Hint(k, h) if m > 0 => c.events[k % m].1 = if *h > 8 { *h } else { h % (m as u32 + 1) },
        Tamper::SwapHints(j, k) if m > 1 => {
            let x = c.events[j % m].1;
            c.events[j % m].1 = c.events[k % m].1;
            c.events[k % m].1 = x;
        }
        Tamper::DropAct(k) if a > 0 => { acts.remove(k % a); }
        Tamper::DupAct(k) if a > 0 => { let x = acts[k % a].clone(); acts.insert(k % a, x); }
        Tamper::SwapActs(k) if a > 1 => acts.swap(k % (a - 1), k % (a - 1) + 1),
        _ => (),
    }
}

fn oracle(c: &Case) -> Verdict {
    let parts = Parts::of(&c.ops);
    let Some((me, acts)) = parts.acts.iter().nth(c.who % parts.acts.len().max(1)) else { return Ok(Obs::new(false)) };
    let (mut claim, mut acts) = (parts.claim(*me), acts.clone());
    for t in &c.tampers {
        apply(t, &mut claim, &mut acts);
        if c.recommit {
            claim.ev_commit = events_root(&claim.events);
            claim.cl_commit = castlist_root(&claim.calls);
        }
    }
    let want = accept(&claim, &acts);
    let r = run(&acts, &claim.tapes());
    let context = || format!("program {:?} doing {acts:?} on {claim:?}", claim.me);
    match (&want, r.end) {
        (Ok(w), End::Halted { .. }) => {
            ensure_same!(r.log.as_ref(), Some(w), "log of {}", context());
        }
        (Err(_), End::Stopped(_)) => (),
        (Ok(_), End::Stopped(e)) => return Err(format!("{} was refused: {e}", context()).into()),
        (Err(why), End::Halted { .. }) => return Err(format!("{} was accepted although {why}", context()).into()),
    }
    let why = want.as_ref().err().map_or("", |e| e.as_str());
    ensure_that!(!c.tampers.is_empty() || want.is_ok(), "the reference refuses an honest claim");
    Ok(Obs::new(!c.tampers.is_empty())
        .class(want.is_ok(), "accepted").class(want.is_err(), "refused").class(want.is_ok() && !c.tampers.is_empty(), "accepted after a change")
        .class(why.contains("another call"), "another call").class(why.contains("did not make"), "forged call").class(why.contains("cast list c"), "cast list commitment")
        .class(why.contains("outside the cast"), "outside the cast list").class(why.contains("events commitment"), "events commitment").class(why.contains("twice"), "event used twice")
        .class(why.contains("another event"), "another event").class(why.contains("not looked"), "unread call").class(why.contains("not every"), "unread event")
        .class(why.contains("not on the tape"), "unrecorded call").class(why.contains("more events"), "unrecorded event"))
}

fn case() -> impl Strategy<Value = Case> {
    let who = || prop_oneof![3 => Just(Who::Me), 2 => Just(Who::Root), 3 => any::<usize>().prop_map(Who::Cast), 2 => any::<u8>().prop_map(Who::Stranger)];
    let k = any::<usize>;
    let b = any::<u8>;
    let t = prop_oneof![
        prop_oneof![k().prop_map(Tamper::DropCall), k().prop_map(Tamper::DupCall), k().prop_map(Tamper::SwapCalls)],
        prop_oneof![(k(), who()).prop_map(|(k, w)| Tamper::Caller(k, w)), (k(), who()).prop_map(|(k, w)| Tamper::Callee(k, w))],
        prop_oneof![(k(), b()).prop_map(|(k, b)| Tamper::Arg(k, b)), (k(), b()).prop_map(|(k, b)| Tamper::Ret(k, b))],
        (k(), who(), who(), b()).prop_map(|(k, f, t, v)| Tamper::Insert(k, f, t, v)),
        (k(), who(), who(), b()).prop_map(|(k, f, t, v)| Tamper::Insert(k, f, t, v)),
        prop_oneof![k().prop_map(Tamper::DropEvent), k().prop_map(Tamper::DupEvent), k().prop_map(Tamper::SwapEvents)],
        prop_oneof![(k(), b(), b()).prop_map(|(k, f, b)| Tamper::Event(k, f, b)), (k(), any::<u32>()).prop_map(|(k, h)| Tamper::Hint(k, h % 12)), (k(), any::<u32>()).prop_map(|(k, h)| Tamper::Hint(k, h)), (k(), k()).prop_map(|(j, k)| Tamper::SwapHints(j, k))],
        prop_oneof![b().prop_map(Tamper::EvCommit), b().prop_map(Tamper::ClCommit), Just(Tamper::EvCommit(255)), who().prop_map(Tamper::Me)],
        prop_oneof![k().prop_map(Tamper::DropAct), k().prop_map(Tamper::DupAct), k().prop_map(Tamper::SwapActs)],
    ];
    (history(), any::<usize>(), prop_oneof![1 => Just(0usize), 6 => Just(1), 3 => Just(2), 1 => Just(3)].prop_flat_map(move |n| prop::collection::vec(t.clone(), n)), prop::bool::weighted(0.7))
        .prop_map(|(ops, who, tampers, recommit)| Case { ops, who, tampers, recommit })
}

pub fn check() -> ! {
    let mut c = Check::new("C13");
    let n = c.cases(40_000, 10);
    c.run("claims", "one program's tapes over a history, with up to three changes to calls, events, hints, commitments, identity or script; non-trivial = changed", n, case, oracle);
    c.finish()
}
