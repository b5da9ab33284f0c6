//! C09: SDK values survive every conversion and serialization.
use h_common::{ensure_same, ensure_that, guarded, Check, Fail, Obs, Verdict};
use mozak_sdk::common::types::{
    CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, Event, EventType, Poseidon2Hash, ProgramIdentifier, RawMessage, StateAddress, StateObject, SystemTape,
};
use mozak_sdk::native::OrderedEvents;
use proptest::prelude::*;
use rkyv::rancor::{Failure, Panic, Strategy as RS};
use rkyv::ser::AllocSerializer;
use script::{Ev, Id, Op, Val};
use serde::{Deserialize, Serialize};

use crate::gen::{self, event, pid};

/// Through rkyv as the tapes do it: serialize, access, deserialize.
fn archive<T>(v: &T, what: &str) -> Result<T, Fail>
where
    T: rkyv::Archive + rkyv::Serialize<RS<AllocSerializer<256>, Failure>>,
    T::Archived: rkyv::Deserialize<T, RS<(), Panic>>, {
    use rkyv::Deserialize;
    guarded(|| {
        let bytes = rkyv::to_bytes::<_, 256, Failure>(v).unwrap();
        unsafe { rkyv::access_unchecked::<T>(&bytes) }.deserialize(RS::wrap(&mut ())).unwrap()
    })
    .map_err(|p| Fail::from(format!("archiving {what}: {p}")))
}
macro_rules! archived { ($v:expr) => { ensure_that!(archive(&$v, stringify!($v))? == $v, "{} changes through its archive", stringify!($v)) } }
macro_rules! json { ($v:expr, $t:ty) => {{
    let s = serde_json::to_string(&$v).map_err(|e| Fail::from(format!("{}: {e}", stringify!($v))))?;
    let b: $t = serde_json::from_str(&s).map_err(|e| Fail::from(format!("{} does not read back from {s}: {e}", stringify!($v))))?;
    ensure_that!(b == $v, "{} changes through JSON {s}", stringify!($v));
    s
}} }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes { h: Id, words: [u64; 4], other: Id, address: [u8; 8], raw: Vec<u8>, seed: u64 }

fn bytes(c: &Bytes) -> Verdict {
    let h = Poseidon2Hash(c.h);
    let le = |k: usize| u64::from_le_bytes(c.h[8 * k..8 * k + 8].try_into().unwrap());
    ensure_same!(h.to_u64s(), [le(0), le(1), le(2), le(3)], "words of a digest");
    ensure_same!(Poseidon2Hash::from_u64s(h.to_u64s()), h, "digest from its words");
    ensure_same!(Poseidon2Hash::from_u64s(c.words).to_u64s(), c.words, "words from a digest");
    ensure_same!(Poseidon2Hash::from(c.words), Poseidon2Hash::from_u64s(c.words), "two ways from words");
    ensure_same!(h.inner(), c.h, "bytes of a digest");
    ensure_same!(*h, c.h, "bytes of a digest by reference");
    ensure_same!(Poseidon2Hash::from(c.h), h, "digest from bytes");
    ensure_same!(Poseidon2Hash::from(c.h.to_vec()), h, "digest from a byte list");
    for n in [0, 31, 33, 64] {
        let v = c.h.iter().chain(&c.other).copied().take(n).collect::<Vec<_>>();
        ensure_that!(guarded(|| Poseidon2Hash::from(v)).is_err(), "a digest was made of {n} bytes");
    }
    archived!(h);
    ensure_same!(json!(h, Poseidon2Hash), format!("\"0x{}\"", hex::encode(c.h)), "JSON of a digest");
    ensure_same!(Poseidon2Hash::two_to_one(h, Poseidon2Hash(c.other)).0, crate::model::node(c.h, c.other), "two to one");
    ensure_same!(mozak_sdk::native::poseidon::poseidon2_hash_with_pad(&c.raw).0, crate::model::sponge_padded(&c.raw), "padded hash");
    let whole = &c.raw[..c.raw.len() / 8 * 8];
    ensure_same!(mozak_sdk::native::poseidon::poseidon2_hash_no_pad(whole).0, crate::model::sponge(whole), "unpadded hash");
    if whole.len() != c.raw.len() {
        ensure_that!(guarded(|| mozak_sdk::native::poseidon::poseidon2_hash_no_pad(&c.raw)).is_err(), "a partial block was hashed unpadded");
    }

    let p = pid(c.h);
    ensure_same!(p.inner(), c.h, "bytes of an identifier");
    ensure_same!(p.is_null_program(), c.h == [0; 32], "null program");
    ensure_same!(p.cmp(&pid(c.other)), c.h.cmp(&c.other), "order of identifiers");
    ensure_same!(p == pid(c.other), c.h == c.other, "equality of identifiers");
    let text = format!("{p:?}");
    ensure_same!(text, format!("MZK-{}", hex::encode(c.h)), "text of an identifier");
    ensure_same!(ProgramIdentifier::from(text.clone()), p, "identifier from its text");
    ensure_same!(ProgramIdentifier::from(text.to_uppercase().replace("MZK", "MZK")), p, "identifier from upper case text");
    archived!(p);
    json!(p, ProgramIdentifier);

    let a = StateAddress(c.address);
    ensure_same!(a.inner(), c.address, "bytes of an address");
    ensure_same!(*a, c.address, "bytes of an address by reference");
    ensure_same!(StateAddress::from(c.address), a, "address from bytes");
    archived!(a);
    ensure_same!(json!(a, StateAddress), format!("\"0x{}\"", hex::encode(c.address)), "JSON of an address");

    let r = RawMessage(c.raw.clone());
    ensure_that!(RawMessage::from(c.raw.clone()) == r && *r == c.raw, "raw message");
    let mut al = rkyv::util::AlignedVec::new();
    al.extend_from_slice(&c.raw);
    ensure_that!(RawMessage::from(al) == r, "raw message from archive bytes");
    archived!(r);
    ensure_same!(json!(r, RawMessage), format!("\"0x{}\"", hex::encode(&c.raw)), "JSON of a raw message");
    ensure_same!(format!("{r:?}"), format!("0x{}", hex::encode(&c.raw)), "text of a raw message");

    ensure_same!(Poseidon2Hash::new_from_rand_seed(c.seed), Poseidon2Hash::new_from_rand_seed(c.seed), "seeded digest");
    ensure_that!(ProgramIdentifier::new_from_rand_seed(c.seed) != ProgramIdentifier::new_from_rand_seed(c.seed ^ 1), "two seeds, one identifier");
    ensure_same!(ProgramIdentifier::new_from_rand_seed(c.seed).0, Poseidon2Hash::new_from_rand_seed(c.seed), "seeded identifier");
    ensure_that!(StateAddress::new_from_rand_seed(c.seed) != StateAddress::new_from_rand_seed(c.seed ^ 1), "two seeds, one address");
    Ok(Obs::new(c.h != [0; 32]).class(c.raw.len() % 8 == 7, "padding fills the block").class(!c.raw.is_empty() && c.raw.len() % 8 == 0, "padding adds a block"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text { id: Id, how: u8, at: usize, ch: char }

/// Texts near an identifier: accepted exactly when they still spell one.
fn text(c: &Text) -> Verdict {
    let good = format!("MZK-{}", hex::encode(c.id));
    let at = c.at % good.len();
    let t = match c.how {
        0 => { let mut v: Vec<char> = good.chars().collect(); v[at] = c.ch; v.into_iter().collect::<String>() }
        1 => { let mut v: Vec<char> = good.chars().collect(); v.remove(at); v.into_iter().collect() }
        2 => { let mut v: Vec<char> = good.chars().collect(); v.insert(at, c.ch); v.into_iter().collect() }
        3 => good[..at].to_string(),
        4 => good.replace('-', ""),
        5 => format!("{good}-{good}"),
        6 => format!("{good}{}", c.ch),
        7 => good.to_lowercase(),
        _ => good.clone(),
    };
    let want = t.strip_prefix("MZK-").filter(|r| r.len() == 64 && r.bytes().all(|b| b.is_ascii_hexdigit())).map(|r| <Id>::try_from(hex::decode(r).unwrap()).unwrap());
    let got = guarded(|| ProgramIdentifier::from(t.clone())).ok().map(|p| p.inner());
    ensure_same!(got, want, "identifier read from {t:?}");
    Ok(Obs::new(t != good).class(want.is_none(), "refused").class(want.is_some_and(|w| w != c.id), "another identifier"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Records { evs: Vec<Ev>, caller: Id, callee: Id, arg: Val, ret: Val, owner: Id }

fn records(c: &Records) -> Verdict {
    for (k, t) in [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner].into_iter().enumerate() {
        ensure_same!(t as u8 as usize, k, "number of {t:?}");
        archived!(t);
        json!(t, EventType);
    }
    for e in &c.evs {
        let ev = event(e);
        archived!(ev);
        json!(ev, Event);
        archived!(ev.object);
        json!(ev.object, StateObject);
        let ce = CanonicalEvent::from_event(&ev);
        archived!(ce);
        json!(ce, CanonicalEvent);
        let hint = CanonicalOrderedTemporalHints(ce, e.data.len() as u32);
        archived!(hint);
        json!(hint, CanonicalOrderedTemporalHints);
    }
    let owned: Vec<StateObject> = c.evs.iter().map(|e| event(e).object).collect();
    let all_mine = c.evs.iter().all(|e| e.owner == c.owner);
    ensure_same!(guarded(|| pid(c.owner).ensure_constraint_owner_similarity(owned.iter())).is_ok(), all_mine, "owner check over {:?}", c.evs.iter().map(|e| e.owner).collect::<Vec<_>>());
    let to_raw = |v: &Val| RawMessage::from(rkyv::to_bytes::<_, 256, Failure>(v).unwrap());
    let call = CrossProgramCall { caller: pid(c.caller), callee: pid(c.callee), argument: to_raw(&c.arg), return_: to_raw(&c.ret) };
    archived!(call);
    json!(call, CrossProgramCall);
    let many = vec![call.clone(), CrossProgramCall::default(), call];
    archived!(many);
    let o = OrderedEvents::new(c.evs.iter().map(event).collect());
    let s = serde_json::to_string(&o).map_err(|e| Fail::from(e.to_string()))?;
    let b: OrderedEvents = serde_json::from_str(&s).map_err(|e| Fail::from(format!("event list does not read back: {e}")))?;
    ensure_that!(b.get_canonical_order_temporal_hints() == o.get_canonical_order_temporal_hints() && b.get_temporal_order_canonical_hints() == o.get_temporal_order_canonical_hints(), "an event list changes through JSON");
    Ok(Obs::new(!c.evs.is_empty()).class(all_mine && !c.evs.is_empty(), "all owned"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tape(Vec<Op>);

/// A whole tape, as a native run dumps it, reads back and writes out the same.
fn tape(c: &Tape) -> Verdict {
    let Ok(d) = crate::native::dump(&c.0) else { return Ok(Obs::default()) };
    let t: SystemTape = serde_json::from_str(&d.text).map_err(|e| Fail::from(format!("dumped tape does not read back: {e}")))?;
    let again = serde_json::to_value(&t).unwrap();
    ensure_same!(again, d.json, "tape written out again");
    ensure_same!(t.call_tape.writer.len(), d.json["call_tape"]["global_calltape"].as_array().map_or(0, Vec::len), "calls read back");
    Ok(Obs::new(!t.call_tape.writer.is_empty() || !t.event_tape.writer.is_empty()))
}

pub fn check() -> ! {
    let mut c = Check::new("C09");
    let n = c.cases(15_000, 20);
    c.run("bytes", "digests, identifiers, addresses and byte messages through words, bytes, text, JSON and archives, and hashes of byte strings; non-trivial = a non-zero digest", n, || {
        (gen::digest(), any::<[u64; 4]>(), gen::digest(), gen::address(), gen::data(), any::<u64>()).prop_map(|(h, words, other, address, raw, seed)| Bytes { h, words, other, address, raw, seed })
    }, bytes);
    let n = c.cases(10_000, 20);
    c.run("text", "texts one edit away from an identifier's: read exactly when they spell one; non-trivial = an edited text", n,
        || (gen::digest(), 0u8..9, any::<usize>(), prop_oneof![prop::char::range('0', 'g'), Just('-'), Just('F'), Just('z'), Just('_')]).prop_map(|(id, how, at, ch)| Text { id, how, at, ch }), text);
    let n = c.cases(8_000, 20);
    c.run("records", "events, canonical events, calls, hints and event lists through JSON and archives; owner checks; non-trivial = at least one event", n, || {
        (gen::id(), gen::id(), gen::id(), gen::val(), gen::val()).prop_flat_map(|(owner, caller, callee, arg, ret)| {
            let evs = prop::collection::vec((gen::ev(), 0u8..5).prop_map(move |(mut e, k)| { if k > 0 { e.owner = owner } e }), 0..5);
            evs.prop_map(move |evs| Records { evs, caller, callee, arg: arg.clone(), ret: ret.clone(), owner })
        })
    }, records);
    let n = c.cases(400, 10);
    c.run("tape", "system tapes dumped by generated native runs, read back and written out again; non-trivial = a call or an event on the tape", n, || gen::native_ops().prop_map(Tape), tape);
    c.assume("hex text inside JSON is produced by a stand-in for the serde-hex crate, which is not in the sandbox");
    c.finish()
}
