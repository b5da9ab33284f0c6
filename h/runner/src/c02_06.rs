//! C02..C06: execution of generated guest programs against the model.
use h_common::{ensure_same, ensure_that, guarded, Check, Fail, Obs, Verdict};
use mozak_runner::code::execute_code_with_ro_memory;
use mozak_runner::decode::decode_instruction;
use mozak_runner::instruction::{Instruction, Op};
use mozak_runner::state::{RawTapes, StorageDeviceOpcode as D};
use mozak_runner::vm::ExecutionRecord;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, Field64, PrimeField64};
use plonky2::hash::hashing::PlonkyPermutation;
use plonky2::hash::poseidon2::{Poseidon2Hash, Poseidon2Permutation};
use plonky2::plonk::config::{GenericHashOut, Hasher};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::drive::{ending, memory as mem_same, registers, run, Both};
use crate::gen::{self, Item, Prog, IOPS, ROPS};
use crate::model::Access;

fn too_long() -> Verdict { Ok(Obs::default().class(true, "skipped: too long")) }

/* ---------- C02 ---------- */

/// One instruction on chosen operands, through a one-instruction program.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct One { item: Item, x5: u32, x6: u32 }

fn one(c: &One) -> Verdict {
    let mut regs = vec![0u32; 31];
    regs[4] = c.x5;
    regs[5] = c.x6;
    let p = Prog { base: 0x1000, items: vec![c.item.clone()], regs, rw: vec![], ro: vec![], tapes: vec![vec![]; 4], commits: (0, 0, 0) };
    let b = run(&p).ok_or("too long")?;
    if let Some(r) = ending(&b)? { registers(&b, r)?; }
    Ok(Obs::new(true))
}

fn exec(p: &Prog) -> Verdict {
    let Some(b) = run(p) else { return too_long() };
    let Some(r) = ending(&b)? else { return Ok(Obs::new(false).class(true, "stops with a fault")) };
    registers(&b, r)?;
    let taken = b.steps.iter().filter(|s| s.1.taken == Some(true)).count();
    let untaken = b.steps.iter().filter(|s| s.1.taken == Some(false)).count();
    let jumped = b.steps.iter().any(|s| s.1.word & 0x7f == 0x67 || s.1.word & 0x7f == 0x6f);
    Ok(Obs::new(b.steps.len() >= 6)
        .class(taken > 0, "taken branch").class(untaken > 0, "untaken branch").class(jumped, "jump"))
}

pub fn alu() -> ! {
    let mut c = Check::new("C02");
    let n = c.cases(960_000, 20);
    c.run("single", "one R/I/U/branch/jump instruction over two operand values drawn around sign, overflow, zero and shift boundaries", n, || {
        let item = prop_oneof![
            6 => (0u8..ROPS.len() as u8, prop::sample::select(vec![5u8, 6]), prop::sample::select(vec![5u8, 6])).prop_map(|(k, a, b)| Item::R(k, 7, a, b)),
            4 => (0u8..IOPS.len() as u8, prop_oneof![Just(0u16), Just(1), Just(0x7ff), Just(0x800), Just(0xfff), 0u16..0x1000]).prop_map(|(k, i)| Item::I(k, 7, 5, i)),
            2 => (0u8..6, prop::sample::select(vec![5u8, 6]), prop::sample::select(vec![5u8, 6]), 0u8..2).prop_map(|(k, a, b, s)| Item::Br(k, a, b, s)),
            1 => (0u8..8, any::<bool>()).prop_map(|(rd, odd)| Item::Jalr(rd, rd, 0, odd)),
            1 => gen::val().prop_map(|v| Item::Auipc(7, v)),
        ];
        (item, gen::val(), gen::val(), any::<u8>()).prop_map(|(item, a, b, k)| One { item, x5: a, x6: if k < 30 { a } else { b } })
    }, one);
    let n = c.cases(192_000, 20);
    c.run("programs", "programs of up to 24 ALU / branch / jump / loop items at random code addresses, ending in HALT; non-trivial = at least 6 executed instructions", n, || {
        let item = prop_oneof![5 => gen::alu(), 3 => gen::ctl()].boxed();
        gen::prog(item, 24, false)
    }, exec);
    let n = c.cases(96_000, 20);
    c.run("faults", "programs that may also contain arbitrary words and jumps out of the code; invalid words must end in an error exactly where the model says", n, || {
        let item = prop_oneof![
            6 => gen::alu(), 2 => gen::ctl(),
            1 => any::<u32>().prop_map(Item::Raw),
            1 => (prop::sample::select(vec![0x33u32, 0x13, 0x73, 0x67, 0x63, 0x03, 0x23]), any::<u32>()).prop_map(|(o, w)| Item::Raw(o | w & !0x7f)),
        ].boxed();
        gen::prog(item, 12, false)
    }, |p| {
        let Some(b) = run(p) else { return too_long() };
        match ending(&b)? {
            Some(r) => { registers(&b, r)?; Ok(Obs::new(b.steps.len() >= 4)) }
            None => Ok(Obs::new(!b.steps.is_empty()).class(true, "fault")),
        }
    });
    c.assume("the reference is an independent RV32IM interpreter with the repository's documented no-ops (CSRRW/CSRRS/CSRRWI, MRET, EBREAK, FENCE)");
    c.finish()
}

/* ---------- C03 ---------- */

fn mem_oracle(p: &Prog) -> Verdict {
    let Some(b) = run(p) else { return too_long() };
    let faulted = b.fault.is_some();
    let Some(r) = ending(&b)? else { return Ok(Obs::new(true).class(true, "store to read-only memory refused").class(!faulted, "?")) };
    registers(&b, r)?;
    mem_same(&b, r)?;
    // overlap: a load of a byte some earlier store wrote
    let mut written = std::collections::HashSet::new();
    let (mut hit, mut wrap, mut code) = (false, false, false);
    for (_, s) in &b.steps {
        if let Access::Load(a, n) = s.access {
            hit |= (0..n).any(|i| written.contains(&a.wrapping_add(i)));
            wrap |= a.checked_add(n - 1).is_none();
        }
        if let Access::Store(a, n) = s.access { wrap |= a.checked_add(n - 1).is_none(); }
        for (a, _) in &s.touched { written.insert(*a); code |= b.start.code.contains_key(&(a & !3)); }
    }
    Ok(Obs::new(hit).class(wrap, "access wraps the address space").class(code, "store over code").class(hit, "load sees a store"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes { ro: Vec<(u32, u8)>, ops: Vec<(u32, Option<u8>)> }

/// The machine state's own byte and word accessors.
fn accessors(c: &Bytes) -> Verdict {
    use mozak_runner::code::Code;
    use mozak_runner::elf::{Data, Program};
    let program = Program { entry_point: 0, ro_memory: Data(c.ro.iter().copied().collect()), rw_memory: Data::default(), ro_code: Code::default() };
    let mut s: mozak_runner::state::State<F> = program.into();
    let ro: std::collections::HashMap<u32, u8> = c.ro.iter().copied().collect();
    let mut mem = ro.clone();
    let (mut refused, mut wrapped) = (false, false);
    for (a, v) in &c.ops {
        match v {
            Some(v) => match s.clone().store_u8(*a, *v) {
                Ok(n) => {
                    ensure_that!(!ro.contains_key(a), "a store to read-only {a:#x} was accepted");
                    mem.insert(*a, *v);
                    s = n;
                }
                Err(_) => {
                    ensure_that!(ro.contains_key(a), "a store to writable {a:#x} was refused");
                    refused = true;
                }
            },
            None => {
                let want: [u8; 4] = std::array::from_fn(|i| mem.get(&a.wrapping_add(i as u32)).copied().unwrap_or(0));
                ensure_same!(s.load_u8(*a), want[0], "byte at {a:#x}");
                ensure_same!(s.load_u32(*a), u32::from_le_bytes(want), "word at {a:#x}");
                wrapped |= a.checked_add(3).is_none();
            }
        }
    }
    Ok(Obs::new(c.ops.len() > 4).class(refused, "refused").class(wrapped, "word wraps the address space"))
}

pub fn memory() -> ! {
    let mut c = Check::new("C03");
    let n = c.cases(160_000, 20);
    c.run("accessors", "histories of byte stores and byte/word loads on a machine state, some bytes read-only, around the top of memory and over a few addresses; non-trivial = more than 4 operations", n, || {
        let a = || prop_oneof![0u32..10, 0xffff_fff8u32..=0xffff_ffff, 0x8000_0000u32..0x8000_0004];
        (prop::collection::vec((a(), any::<u8>()), 0..3), prop::collection::vec((a(), any::<Option<u8>>()), 0..16)).prop_map(|(ro, ops)| Bytes { ro, ops })
    }, accessors);
    let n = c.cases(240_000, 20);
    c.run("rw", "programs of loads and stores of every width on overlapping, unaligned and wrapping addresses, mixed with ALU work; non-trivial = some load reads a byte an earlier store wrote", n, || {
        let item = prop_oneof![6 => gen::mem(gen::rw_addr().boxed()), 2 => gen::alu(), 1 => gen::ctl()].boxed();
        gen::prog(item, 20, true)
    }, mem_oracle);
    let n = c.cases(96_000, 20);
    c.run("ro", "as rw, with stores that may hit read-only bytes: those runs must stop there, all others must agree", n, || {
        let item = prop_oneof![6 => gen::mem(gen::addr().boxed()), 2 => gen::alu()].boxed();
        gen::prog(item, 10, true)
    }, mem_oracle);
    let n = c.cases(64_000, 20);
    c.run("ecall-writes", "tape reads and hashes that may write over read-only bytes, then loads", n, || {
        let item = prop_oneof![
            2 => (prop::sample::select(vec![2u32, 4, 5, 6, 7, 8, 9]), prop_oneof![0x4ff8u32..0x5010, 0x4000u32..0x4030], 0u32..12).prop_map(|(k, a, n)| Item::Ecall(k, a, n, 0)),
            1 => (0x4000u32..0x4020, prop_oneof![0x4fe0u32..0x5010, 0x4000u32..0x4030]).prop_map(|(a, o)| Item::Ecall(3, a, 8, o)),
            2 => gen::mem(gen::rw_addr().boxed()),
        ].boxed();
        gen::prog(item, 6, true)
    }, mem_oracle);
    c.assume("a store to a read-only byte may stop the run by an error or a panic (the code documents a panic)");
    c.finish()
}

/* ---------- C04 ---------- */

fn record_same(b: &Both, r: &ExecutionRecord<F>) -> Result<(), Fail> {
    registers(b, r)?;
    let clk0 = r.executed.first().map_or(0, |x| x.state.clk);
    for (k, (row, (m, s))) in r.executed.iter().zip(&b.steps).enumerate() {
        let at = format!("row {k} ({:?} at {:#x})", row.instruction, m.pc);
        let next = r.executed.get(k + 1).map_or(&r.last_state, |x| &x.state);
        ensure_same!(row.state.clk, clk0 + k as u64, "{at}: clock");
        ensure_that!(!row.state.halted, "{at}: already halted");
        let in_code = b.program.ro_code.get_instruction(m.pc).and_then(|i| i.clone().ok());
        ensure_same!(Some(row.instruction), in_code, "{at}: recorded instruction");
        ensure_same!(row.aux.new_pc, next.pc, "{at}: recorded next pc");
        ensure_same!(row.aux.new_pc, s.next_pc, "{at}: next pc");
        ensure_same!(row.aux.will_halt, s.halt, "{at}: will_halt");
        ensure_same!(row.aux.will_halt, k + 1 == b.steps.len(), "{at}: halts only on the last row");
        let (op, a) = (row.instruction.op, row.instruction.args);
        let (v1, v2) = (m.x[a.rs1 as usize], m.x[a.rs2 as usize]);
        ensure_same!(row.aux.op1, v1, "{at}: first operand");
        ensure_same!(row.aux.op2_raw, v2, "{at}: raw second operand");
        let op2 = match op {
            Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU => v2,
            Op::SLL | Op::SRL | Op::SRA => 1u32 << (v2.wrapping_add(a.imm) & 31),
            _ => v2.wrapping_add(a.imm),
        };
        ensure_same!(row.aux.op2, op2, "{at}: second operand");
        if let Some((_, v)) = s.wrote { ensure_same!(row.aux.dst_val, v, "{at}: value written to the destination"); }
        match s.access {
            Access::None => ensure_that!(row.aux.mem.is_none(), "{at}: records a memory access"),
            Access::Load(addr, n) | Access::Store(addr, n) => {
                let e = row.aux.mem.ok_or_else(|| Fail::from(format!("{at}: no memory access recorded")))?;
                ensure_same!((e.addr, e.raw_value), (addr, s.raw), "{at}: memory entry");
                let want: Vec<u32> = (0..n).map(|i| addr.wrapping_add(i)).collect();
                ensure_same!(row.aux.mem_addresses_used, want, "{at}: addresses used");
                if matches!(s.access, Access::Store(..)) { ensure_same!(row.aux.dst_val, s.raw, "{at}: stored value"); }
            }
        }
        match (&s.tape, &row.aux.storage_device_entry) {
            (None, None) => {}
            (Some((id, addr, data)), Some(e)) => {
                let kind = [D::None, D::None, D::StorePrivate, D::None, D::StorePublic, D::StoreCallTape, D::StoreEventTape,
                    D::StoreEventsCommitmentTape, D::StoreCastListCommitmentTape, D::StoreSelfProgIdTape][*id as usize];
                ensure_same!(e.op, kind, "{at}: tape");
                ensure_same!(e.addr, *addr, "{at}: tape buffer");
                ensure_same!(e.data, *data, "{at}: tape bytes");
                ensure_same!(row.aux.dst_val, data.len() as u32, "{at}: number of bytes read");
                let want: Vec<u32> = (0..data.len() as u32).map(|i| addr.wrapping_add(i)).collect();
                ensure_same!(row.aux.mem_addresses_used, want, "{at}: addresses used");
            }
            (e, g) => return Err(format!("{at}: tape entry {g:?}, expected {e:?}").into()),
        }
        match (&s.hash, &row.aux.poseidon2) {
            (None, None) => {}
            (Some(h), Some(e)) => {
                ensure_same!((e.addr, e.len, e.output_addr), (h.addr, h.len, h.out), "{at}: hash entry");
                let want: Vec<u32> = (0..h.len).map(|i| h.addr.wrapping_add(i)).chain((0..32).map(|i| h.out.wrapping_add(i))).collect();
                ensure_same!(row.aux.mem_addresses_used, want, "{at}: addresses used");
            }
            (e, g) => return Err(format!("{at}: hash entry {:?}, expected {:?}", g.is_some(), e.is_some()).into()),
        }
        if s.hash.is_none() && s.tape.is_none() && s.access == Access::None {
            ensure_that!(row.aux.mem_addresses_used.is_empty(), "{at}: claims memory addresses {:?}", row.aux.mem_addresses_used);
        }
    }
    ensure_that!(r.last_state.halted, "the last state has not halted");
    ensure_same!(r.last_state.clk, clk0 + b.steps.len() as u64, "final clock");
    Ok(())
}

fn execute(p: &Prog) -> Verdict {
    let Some(mut b) = run(p) else { return too_long() };
    if ending(&b)?.is_none() { return Ok(Obs::default()) }
    // without what halts it at the end
    let mut code: Vec<Instruction> = vec![];
    for (a, w) in b.start.code.iter().take(b.start.code.len() - 2) { match decode_instruction(*a, *w) { Ok(i) => code.push(i), Err(_) => return Ok(Obs::default()) } }
    let regs: Vec<(u8, u32)> = p.regs.iter().enumerate().map(|(k, v)| (k as u8 + 1, *v)).collect();
    let t = &b.start.tapes;
    let tapes = RawTapes {
        private_tape: t.private.clone(), public_tape: t.public.clone(), call_tape: t.call.clone(), event_tape: t.event.clone(),
        events_commitment_tape: t.ev_commit, cast_list_commitment_tape: t.cl_commit, self_prog_id_tape: t.self_id,
    };
    let (program, r) = guarded(|| execute_code_with_ro_memory(code, &p.ro, &p.rw, &regs, tapes)).map_err(|e| Fail::from(format!("executing the instructions panicked: {e}")))?;
    b.program = program;
    record_same(&b, &r)?;
    mem_same(&b, &r)?;
    Ok(Obs::new(b.steps.len() > 3))
}

pub fn record() -> ! {
    let mut c = Check::new("C04");
    let n = c.cases(240_000, 20);
    c.run("records", "programs mixing every kind of item; every row of the record is compared with what the model did in that step; non-trivial = at least 8 rows and a memory access, tape read, hash or branch among them", n, || {
        let item = prop_oneof![4 => gen::alu(), 2 => gen::ctl(), 4 => gen::mem(gen::rw_addr().boxed()), 2 => gen::ecalls(), 1 => gen::hashes(3)].boxed();
        gen::prog(item, 16, false)
    }, |p| {
        let Some(b) = run(p) else { return too_long() };
        let Some(r) = ending(&b)? else { return Ok(Obs::default()) };
        record_same(&b, r)?;
        let any = |f: fn(&crate::model::Step) -> bool| b.steps.iter().any(|s| f(&s.1));
        let (m, t, h, br) = (any(|s| s.access != Access::None), any(|s| s.tape.is_some()), any(|s| s.hash.is_some()), any(|s| s.taken.is_some()));
        Ok(Obs::new(b.steps.len() >= 8 && (m || t || h || br)).class(m, "memory").class(t, "tape").class(h, "hash").class(br, "branch"))
    });
    let n = c.cases(24_000, 20);
    c.run("execute", "the same for a list of instructions that `execute_code_with_ro_memory` puts at address 0, halts at their end and runs; non-trivial = at least 4 rows", n, || {
        let item = prop_oneof![4 => gen::alu(), 2 => gen::ctl(), 4 => gen::mem(gen::rw_addr().boxed()), 2 => gen::ecalls()].boxed();
        gen::prog(item, 12, true).prop_map(|mut p| { p.base = 0; p })
    }, execute);
    c.finish()
}

/* ---------- C05 ---------- */

fn tape_oracle(p: &Prog) -> Verdict {
    let Some(b) = run(p) else { return too_long() };
    let Some(r) = ending(&b)? else { return Ok(Obs::default().class(true, "fault")) };
    registers(&b, r)?;
    mem_same(&b, r)?;
    let idx = [r.last_state.private_tape.read_index, r.last_state.public_tape.read_index, r.last_state.call_tape.read_index, r.last_state.event_tape.read_index];
    ensure_same!(idx, b.end.idx, "bytes consumed per tape");
    for (k, (row, (_, s))) in r.executed.iter().zip(&b.steps).enumerate() {
        if let Some((_, addr, data)) = &s.tape {
            let e = row.aux.storage_device_entry.as_ref().ok_or_else(|| Fail::from(format!("row {k}: no tape entry")))?;
            ensure_same!((e.addr, &e.data), (*addr, data), "row {k}: tape entry");
        }
    }
    let reads = b.steps.iter().filter(|s| s.1.tape.is_some()).count();
    let short = b.steps.iter().any(|s| matches!(&s.1.tape, Some((_, _, d)) if (d.len() as u32) < s.0.x[12]));
    let unknown = b.steps.iter().any(|s| s.1.ecall.is_some_and(|e| e > 10));
    Ok(Obs::new(reads >= 2).class(short, "read past the end").class(unknown, "unknown call").class(reads >= 4, "4+ reads"))
}

pub fn tapes() -> ! {
    let mut c = Check::new("C05");
    let n = c.cases(320_000, 20);
    c.run("reads", "programs of tape reads (four sequential tapes, three fixed 32-byte tapes) with lengths from 0 to 2^32-1, interleaved with loads, stores and unknown calls; non-trivial = at least two tape reads", n, || {
        let item = prop_oneof![6 => gen::ecalls(), 1 => gen::mem(gen::rw_addr().boxed()), 1 => gen::alu()].boxed();
        gen::prog(item, 12, false)
    }, tape_oracle);
    let n = c.cases(24_000, 20);
    c.run("panic-call", "programs that reach the PANIC call must stop there and never complete", n, || {
        (gen::prog(prop_oneof![3 => gen::ecalls(), 2 => gen::alu()].boxed(), 5, false), 0u32..12, prop::collection::vec(b'a'..b'z', 0..12)).prop_map(|(mut p, off, msg)| {
            let at = 0x6000 + off;
            p.rw.extend(msg.iter().enumerate().map(|(i, b)| (at + i as u32, *b)));
            p.items.push(Item::Ecall(1, at, msg.len() as u32, 0));
            p
        })
    }, |p| {
        let Some(b) = run(p) else { return too_long() };
        let m = ending(&b)?;
        ensure_that!(m.is_none(), "a program that calls PANIC completed");
        let text = match &b.real { Err(p) => p.clone(), Ok(Err(e)) => e.clone(), Ok(Ok(_)) => unreachable!() };
        let Item::Ecall(_, at, n, _) = p.items[p.items.len() - 1] else { unreachable!() };
        let msg: String = (0..n).map(|i| b.end.rd8(at + i) as char).collect();
        ensure_that!(text.contains(&msg), "the guest's panic message {msg:?} is not reported: {text}");
        Ok(Obs::new(n > 0))
    });
    c.finish()
}

/* ---------- C06 ---------- */

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Elems(Vec<u64>);

fn sponge(c: &Elems) -> Verdict {
    type P = Poseidon2Permutation<F>;
    let input: Vec<F> = c.0.iter().map(|x| F::from_canonical_u64(*x)).collect();
    let (h, data) = mozak_runner::poseidon2::hash_n_to_m_no_pad::<F, P>(&input);
    ensure_same!(h.to_bytes(), Poseidon2Hash::hash_no_pad(&input).to_bytes(), "digest against the hasher");
    let mut st = [F::ZERO; 12];
    ensure_same!(data.len(), input.len() / 8, "one sponge record per 8 elements");
    for (k, (d, chunk)) in data.iter().zip(input.chunks(8)).enumerate() {
        st[..8].copy_from_slice(chunk);
        ensure_same!(d.preimage, st, "preimage of permutation {k}");
        let mut p = P::new(st);
        p.permute();
        st = p.as_ref().try_into().unwrap();
        ensure_same!(d.output, st, "output of permutation {k}");
        ensure_same!(d.gen_output.to_canonical_u64(), u64::from(k + 1 == data.len()), "output flag of permutation {k}");
    }
    Ok(Obs::new(data.len() >= 2).class(data.len() >= 2, "several chunks"))
}

pub fn poseidon() -> ! {
    let mut c = Check::new("C06");
    let n = c.cases(160_000, 20);
    c.run("sponge", "field element lists of 1 to 6 chunks of 8, including values near the modulus; digest, preimages and outputs against the plain hasher; non-trivial = at least two chunks", n, || {
        let e = prop_oneof![4 => 0u64..256, 2 => 0u64..F::ORDER, 1 => Just(F::ORDER - 1), 1 => Just(0u64)];
        (1usize..7).prop_flat_map(move |n| prop::collection::vec(e.clone(), 8 * n)).prop_map(Elems)
    }, sponge);
    let n = c.cases(128_000, 20);
    c.run("guest", "programs that fill buffers by stores and tape reads, hash them (overlapping input and output, wrapping addresses) and load the digest back; non-trivial = a hash of a buffer the program itself wrote", n, || {
        let item = prop_oneof![4 => gen::hashes(5), 2 => gen::mem(gen::rw_addr().boxed()), 2 => gen::ecalls()].boxed();
        gen::prog(item, 8, false)
    }, |p| {
        let Some(b) = run(p) else { return too_long() };
        let Some(r) = ending(&b)? else { return Ok(Obs::default().class(true, "fault")) };
        registers(&b, r)?;
        mem_same(&b, r)?;
        let mut n = 0;
        let mut written = std::collections::HashSet::new();
        let mut own = false;
        for (k, (row, (_, s))) in r.executed.iter().zip(&b.steps).enumerate() {
            if let Some(h) = &s.hash {
                n += 1;
                own |= (0..h.len).any(|i| written.contains(&h.addr.wrapping_add(i)));
                let e = row.aux.poseidon2.as_ref().ok_or_else(|| Fail::from(format!("row {k}: no hash entry")))?;
                ensure_same!((e.addr, e.len, e.output_addr), (h.addr, h.len, h.out), "row {k}: hash entry");
                let absorbed: Vec<u64> = e.sponge_data.iter().flat_map(|d| d.preimage[..8].iter().map(|x| x.to_canonical_u64())).collect();
                ensure_same!(absorbed, h.input.iter().map(|b| u64::from(*b)).collect::<Vec<_>>(), "row {k}: absorbed bytes");
                let last = e.sponge_data.last().unwrap();
                let digest: Vec<u8> = last.output[..4].iter().flat_map(|x| x.to_canonical_u64().to_le_bytes()).collect();
                ensure_same!(digest, h.digest, "row {k}: squeezed bytes");
            }
            for (a, _) in &s.touched { written.insert(*a); }
        }
        Ok(Obs::new(own).class(n > 1, "several hashes").class(own, "hash of written bytes"))
    });
    c.assume("the plonky2 stand-in's Poseidon2 permutation is the hasher both sides use; its constants are not the property");
    c.finish()
}
