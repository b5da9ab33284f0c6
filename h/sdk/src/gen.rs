//! Generators shared by the SDK checks.
use mozak_sdk::common::types::{Event, EventType, Poseidon2Hash, ProgramIdentifier, StateAddress, StateObject};
use proptest::prelude::*;
use script::{Ev, Id, Kind, Op, Val};

/// Program identifiers from a small pool, so that programs meet again; the pool
/// has neighbours that differ in one byte at either end.
pub fn id() -> impl Strategy<Value = Id> + Clone {
    prop_oneof![
        8 => (1u8..7).prop_map(|k| { let mut v = [0; 32]; v[0] = k; v }),
        3 => (1u8..5).prop_map(|k| { let mut v = [0x5a; 32]; v[31] = k; v }),
        1 => any::<[u8; 32]>(),
    ]
}
pub fn digest() -> impl Strategy<Value = Id> + Clone {
    prop_oneof![1 => Just([0u8; 32]), 1 => Just([0xff; 32]), 2 => (0u8..4).prop_map(|k| [k; 32]), 6 => any::<[u8; 32]>()]
}
pub fn address() -> impl Strategy<Value = [u8; 8]> + Clone {
    prop_oneof![
        4 => (0u8..5).prop_map(|k| [k; 8]),
        3 => (0u64..20).prop_map(u64::to_le_bytes),
        2 => (0u32..64, 0u64..4).prop_map(|(s, k)| (1u64 << s).wrapping_add(k).to_le_bytes()),
        2 => any::<[u8; 8]>(),
        1 => (any::<u8>()).prop_map(|k| { let mut a = [0; 8]; a[7] = k; a }),
    ]
}
pub fn data() -> impl Strategy<Value = Vec<u8>> + Clone {
    prop_oneof![
        2 => Just(vec![]),
        4 => prop::collection::vec(prop_oneof![Just(0u8), Just(1), Just(0xff), any::<u8>()], 0..10),
        2 => prop::collection::vec(any::<u8>(), 0..40),
    ]
}
pub fn ev() -> impl Strategy<Value = Ev> + Clone {
    (0u8..5, address(), prop_oneof![1 => Just([0u8; 32]), 3 => id()], data()).prop_map(|(kind, address, owner, data)| Ev { kind, address, owner, data })
}
pub fn val() -> impl Strategy<Value = Val> + Clone {
    let kind = prop_oneof![
        Just(Kind::Unit), any::<u64>().prop_map(Kind::Num), any::<(u8, u32)>().prop_map(|(a, b)| Kind::Pair(a, b)), data().prop_map(Kind::Bytes),
    ];
    // Lists of lists take scratch space to serialize: mostly little, sometimes a lot
    let piece = || prop::collection::vec(any::<u8>(), 0..4);
    let many = prop_oneof![12 => prop::collection::vec(piece(), 0..4), 1 => prop::collection::vec(piece(), 20..60)];
    (any::<u32>(), data(), any::<Option<u64>>(), kind, prop::collection::vec(any::<(u16, u8)>(), 0..4), many)
        .prop_map(|(tag, data, opt, kind, list, many)| Val { tag, data, opt, kind, list, many })
}

pub fn event_type(k: u8) -> EventType {
    match k {
        0 => EventType::Write,
        1 => EventType::Ensure,
        2 => EventType::Read,
        3 => EventType::GiveOwner,
        _ => EventType::TakeOwner,
    }
}
pub fn pid(i: Id) -> ProgramIdentifier { ProgramIdentifier(Poseidon2Hash(i)) }
pub fn event(e: &Ev) -> Event {
    Event {
        type_: event_type(e.kind),
        object: StateObject { address: StateAddress(e.address), constraint_owner: pid(e.owner), data: e.data.clone() },
    }
}

/// Native histories: identities come and go, calls nest, and every write and
/// event happens under some identity.
pub fn native_ops() -> BoxedStrategy<Vec<Op>> {
    fn leaf() -> BoxedStrategy<Op> {
        prop_oneof![
            3 => ev().prop_map(Op::Emit),
            3 => (any::<bool>(), data()).prop_map(|(public, data)| Op::Write { public, data }),
            1 => id().prop_map(Op::AddId),
            1 => Just(Op::RmId),
        ].boxed()
    }
    let body = prop::collection::vec(leaf(), 0..3);
    let call = |body: BoxedStrategy<Vec<Op>>| (id(), val(), val(), body).prop_map(|(callee, arg, ret, body)| Op::Call { callee, arg, ret, body });
    let op = leaf().prop_recursive(4, 24, 4, move |inner| {
        prop_oneof![1 => leaf(), 3 => call(prop::collection::vec(inner, 0..4).boxed())].boxed()
    });
    let _ = body;
    prop::collection::vec(op, 0..7).boxed()
}
