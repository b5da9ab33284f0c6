//! C10: canonical events, their order, hints and commitment.
use h_common::{ensure_same, ensure_that, Check, Obs, Verdict};
use mozak_sdk::common::types::CanonicalEvent;
use mozak_sdk::native::OrderedEvents;
use proptest::prelude::*;
use script::Ev;
use serde::{Deserialize, Serialize};

use crate::gen::{self, event};
use crate::model;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Events { evs: Vec<Ev>, shuffle: Vec<Ev> }

fn canon(c: &CanonicalEvent) -> model::Canon { model::Canon { address: c.address.0, kind: c.type_ as u8, value: c.value.0 } }

fn order(c: &Events) -> Verdict {
    let evs: Vec<_> = c.evs.iter().map(event).collect();
    let o = OrderedEvents::new(evs.clone());
    let mut pushed = OrderedEvents::default();
    for e in &evs { pushed.push_temporal(e.clone()); }
    let want = model::canonical(&c.evs);

    let hints = o.get_canonical_order_temporal_hints();
    ensure_same!(hints, pushed.get_canonical_order_temporal_hints(), "pushing one by one and building at once differ");
    ensure_same!(hints.len(), evs.len(), "number of canonical events");
    for (k, (h, w)) in hints.iter().zip(&want).enumerate() {
        ensure_same!(canon(&h.0), w.0, "canonical event {k}");
    }
    // the hint of the event emitted as t-th is its place in canonical order
    for (t, h) in hints.iter().enumerate() {
        let place = want.iter().position(|w| w.1 == t).unwrap();
        ensure_that!(h.1 as usize == place, "event emitted as number {t} is number {place} in canonical order, its hint says {}", h.1);
    }
    let back = o.get_temporal_order_canonical_hints();
    ensure_same!(back.len(), evs.len(), "number of temporal events");
    for (t, (e, k)) in back.iter().enumerate() {
        ensure_that!(*e == evs[t], "temporal event {t} is {e:?}");
        ensure_same!(*k as usize, want[t].1, "when canonical event {t} was emitted");
    }
    ensure_same!(o.canonical_hash().0, model::events_root(&c.evs), "commitment");
    let sh = OrderedEvents::new(c.shuffle.iter().map(event).collect());
    ensure_same!(sh.canonical_hash(), o.canonical_hash(), "commitment after emitting the same events in another order");
    ensure_that!(sh.get_canonical_order_temporal_hints().iter().map(|h| h.0).eq(hints.iter().map(|h| h.0)), "canonical order depends on emission order");
    let moved = want.iter().enumerate().any(|(k, w)| k != w.1);
    let dup = want.windows(2).any(|w| w[0].0 == w[1].0);
    Ok(Obs::new(evs.len() > 1 && moved).class(dup, "equal events").class(want.windows(2).any(|w| w[0].0.address == w[1].0.address), "same address").class(evs.len() == 2, "two events"))
}

fn hash(e: &Ev) -> Verdict {
    let c = CanonicalEvent::from_event(&event(e));
    let w = model::Canon::of(e);
    ensure_same!(canon(&c), w, "canonical event");
    ensure_same!(c.canonical_hash().0, w.hash(), "hash of the canonical event");
    Ok(Obs::new(!e.data.is_empty()).class(e.data.last() == Some(&0), "data ends in zero").class(e.data.len() % 8 == 7, "padding fills the block").class(e.data.len() % 8 == 0, "padding adds a block"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two(Ev, Ev);
fn distinct(c: &Two) -> Verdict {
    let (a, b) = (CanonicalEvent::from_event(&event(&c.0)), CanonicalEvent::from_event(&event(&c.1)));
    let same = (c.0.kind, c.0.address, &c.0.data) == (c.1.kind, c.1.address, &c.1.data);
    ensure_same!(a == b, same, "equality of canonical events");
    ensure_same!(a.canonical_hash() == b.canonical_hash(), same, "equality of their hashes");
    Ok(Obs::new(!same))
}

pub fn check() -> ! {
    let mut c = Check::new("C10");
    let n = c.cases(12_000, 20);
    c.run("order", "up to 9 events over few addresses, every type, with repeats, and the same events emitted in another order; non-trivial = canonical and temporal order differ", n, || {
        prop::collection::vec(gen::ev(), 0..9).prop_flat_map(|evs| (Just(evs.clone()), Just(evs).prop_shuffle())).prop_map(|(evs, shuffle)| Events { evs, shuffle })
    }, order);
    let n = c.cases(10_000, 20);
    c.run("hash", "single events with data of every length modulo the rate; non-trivial = some data", n, gen::ev, hash);
    let n = c.cases(10_000, 20);
    c.run("distinct", "pairs of events that differ in one field, or by trailing zeros, ones or a length: equal hashes only for equal type, address and data; non-trivial = they differ", n, || {
        (gen::ev(), 0u8..6, any::<u8>(), any::<usize>()).prop_map(|(e, how, b, at)| {
            let mut f = e.clone();
            match how {
                0 => f.kind = b % 5,
                1 => f.address[at % 8] ^= b,
                2 => f.data.push(b % 3),
                3 => { f.data.pop(); }
                4 => { let n = f.data.len(); if n > 0 { f.data[at % n] ^= b } }
                _ => f.owner[at % 32] ^= b,
            }
            Two(e, f)
        })
    }, distinct);
    c.assume("the constraint owner is not part of a canonical event, as documented by its fields");
    c.finish()
}
