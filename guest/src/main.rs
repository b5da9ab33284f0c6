//! The program every guest check runs: it interprets a script it finds in front
//! of its private tape and hands a log of what the SDK returned to the harness.
#![feature(restricted_std)]
#![no_main]
use std::io::{Read, Seek, SeekFrom};

use mozak_sdk::common::types::{CanonicalEvent, Event, EventType, Poseidon2Hash, PrivateInputTapeType, ProgramIdentifier, PublicInputTapeType, StateAddress, StateObject};
use mozak_sdk::core::ecall;
use mozak_sdk::InputTapeType;
use script::{Ev, Id, In, Op, Out, Val, REPORT};

fn pid(i: Id) -> ProgramIdentifier { ProgramIdentifier(Poseidon2Hash(i)) }
fn event(e: &Ev) -> Event {
    let type_ = match e.kind {
        0 => EventType::Write,
        1 => EventType::Ensure,
        2 => EventType::Read,
        3 => EventType::GiveOwner,
        _ => EventType::TakeOwner,
    };
    Event { type_, object: StateObject { address: StateAddress(e.address), constraint_owner: pid(e.owner), data: e.data.clone() } }
}
fn kind(public: bool) -> InputTapeType { if public { InputTapeType::PublicTape } else { InputTapeType::PrivateTape } }

trait Seekable: Read + Seek {}
impl<T: Read + Seek> Seekable for T {}
enum Tape { Public(PublicInputTapeType), Private(PrivateInputTapeType) }
impl Tape {
    fn io(&mut self) -> &mut dyn Seekable {
        match self { Tape::Public(t) => &mut **t, Tape::Private(t) => &mut **t }
    }
}

fn private(n: usize) -> Vec<u8> {
    let mut b = vec![0; n];
    ecall::ioread_private(&mut b);
    b
}

fn main() {
    let n = u32::from_le_bytes(private(4).try_into().unwrap());
    let b = private(n as usize);
    let ops = In(&b).ops();
    let mut log = Out::default();
    let mut tape = None;
    for op in &ops {
        match op {
            Op::Call { callee, arg, .. } => log.val(&mozak_sdk::call_send(pid(*callee), arg.clone(), |_: Val| -> Val { unreachable!() })),
            Op::Receive => match mozak_sdk::call_receive::<Val, Val>() {
                None => log.u8(0),
                Some((caller, arg, ret)) => { log.u8(1); log.raw(&caller.inner()); log.val(&arg); log.val(&ret) }
            },
            Op::Emit(e) => mozak_sdk::event_emit(event(e)),
            Op::Len { public } => log.u32(mozak_sdk::input_tape_len(&kind(*public)) as u32),
            Op::Read { public, n } => {
                let mut b = vec![0xee; *n as usize];
                let r = mozak_sdk::read(&kind(*public), &mut b);
                log.u32(r.unwrap() as u32);
                log.bytes(&b);
            }
            Op::HashPad(b) => log.raw(&mozak_sdk::poseidon2_hash_with_pad(b).inner()),
            Op::HashNoPad(b) => log.raw(&mozak_sdk::poseidon2_hash_no_pad(b).inner()),
            Op::Merkle(l) => log.raw(&mozak_sdk::common::merkle::merkleize(l.iter().map(|(a, h)| (*a, Poseidon2Hash(*h))).collect()).inner()),
            Op::Canonical(e) => {
                let c = CanonicalEvent::from_event(&event(e));
                log.raw(&c.address.inner());
                log.u8(c.type_ as u8);
                log.raw(&c.value.inner());
                log.raw(&c.canonical_hash().inner());
            }
            Op::NewTape { public, size } => tape = Some(if *public { Tape::Public(PublicInputTapeType::with_size_hint(*size as usize)) } else { Tape::Private(PrivateInputTapeType::with_size_hint(*size as usize)) }),
            Op::TapeRead(n) => {
                let mut b = vec![0xee; *n as usize];
                log.u32(tape.as_mut().unwrap().io().read(&mut b).unwrap() as u32);
                log.bytes(&b);
            }
            Op::TapeSeek { whence, off } => {
                let pos = match whence { 0 => SeekFrom::Start(*off as u64), 1 => SeekFrom::End(*off), _ => SeekFrom::Current(*off) };
                match tape.as_mut().unwrap().io().seek(pos) {
                    Ok(p) => { log.u8(1); log.u64(p) }
                    Err(_) => log.u8(0),
                }
            }
            Op::Panic(m) => match m { 0 => panic!("as told"), 1 => std::process::abort(), 2 => { let v: Option<u8> = None; v.unwrap(); } _ => { let v = [1u8; 4]; log.u8(v[ops.len() + 4]); } },
            Op::AddId(_) | Op::RmId | Op::Write { .. } => unreachable!(),
        }
    }
    unsafe {
        core::arch::asm!("ecall", in ("a0") REPORT, in ("a1") log.0.as_ptr(), in ("a2") log.0.len());
    }
}

mozak_sdk::entry!(main);
