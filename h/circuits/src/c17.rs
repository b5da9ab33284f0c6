//! C17: nothing else can be proved. A cheating prover starts from a run with a lie in
//! it, then changes whatever else the verifier would object to.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Mutex;

use h_common::{ensure_that, guarded, Check, Fail, Obs, Verdict};
use mozak_circuits::stark::mozak_stark::TableKind as K;
use mozak_runner::elf::Program;
use mozak_runner::instruction::{Instruction, Op};
use mozak_runner::state::{CommitmentTape, State, StorageDeviceTape};
use mozak_runner::vm::{ExecutionRecord, Row};
use plonky2::field::types::{Field, Field64, PrimeField64};
use plonky2::hash::hashing::PlonkyPermutation;
use plonky2::hash::poseidon2::Poseidon2Permutation;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::c16;
use crate::drive;
use crate::forge::{Forge, Role, Rule};
use crate::gen::{self, Item, Prog};
use crate::local;
use crate::sym::Slp;
use crate::world::{kind, Mask, Rules, World, F};

const CAP: usize = 300;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Lie {
    /// a step of the run: which one, what about it, the false value (a way to pick one,
    /// a number), and what the prover may still change
    Step { at: u16, what: u8, how: u8, x: u32, loose: u8 },
    /// a cell of an honest trace: table, row, column, false value
    Cell { t: u8, r: u16, c: u16, how: u8, x: u64 },
    /// rows of an honest trace: table, what to do, where
    Rows { t: u8, how: u8, a: u16, b: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { pub p: Prog, pub lie: Lie }

/// One entry point, so that the constraints are read off once.
pub const BASE: u32 = 0x1000;

pub struct Ctx {
    pub rules: Rules,
    pub slps: Vec<Slp>,
    pub roles: Vec<Role>,
    pub mask: Mask,
    pub alone: Mutex<BTreeMap<Rule, usize>>,
    pub budget: usize,
}
fn has(rules: &Rules, k: usize, t: K) -> bool { rules.ctls[k].iter().any(|s| s.table == t as usize) }
impl Ctx {
    pub fn new() -> Ctx {
        let rules = Rules::new();
        let roles = (0..rules.ctls.len())
            .map(|k| match () {
                () if has(&rules, k, K::Program) => Role::Off,
                () if has(&rules, k, K::ProgramMult) => Role::Rom,
                () if has(&rules, k, K::RangeCheckU8) => Role::U8,
                () if has(&rules, k, K::RangeCheck) => Role::U32,
                () if has(&rules, k, K::Xor) => Role::Xor,
                () if has(&rules, k, K::Bitshift) => Role::Shift,
                () => Role::Balance,
            })
            .collect();
        let slps = rules.slps(F::from_canonical_u32(BASE));
        Ctx { rules, slps, roles, mask: Mask::default(), alone: Mutex::default(), budget: 400 }
    }
}

// ---- what a world claims -------------------------------------------------------------

type Bag = BTreeMap<Vec<u64>, u64>;
/// What the instructions of a world claim to have done.
#[derive(PartialEq, Eq, Debug)]
pub struct Claim { flow: Bag, regs: Bag, mem: Bag }

/// The tables that keep what instructions did, as opposed to those that do it.
const KEEP: [K; 9] = [K::Memory, K::Register, K::RegisterInit, K::RegisterZeroRead, K::RegisterZeroWrite, K::CpuSkeleton, K::ElfMemoryInit, K::MemoryZeroInit, K::Program];
fn bag(rules: &Rules, w: &World, table: K, width: usize) -> Bag {
    let mut b = Bag::new();
    for k in 0..rules.ctls.len() {
        if !has(rules, k, table) || rules.ctls[k][0].cols.len() != width { continue; }
        for s in &rules.ctls[k] {
            if KEEP.contains(&kind(s.table)) { continue; }
            for r in 0..w.t[s.table].len() {
                let (f, v) = w.side(s, r);
                if f != F::ZERO { let e = b.entry(v).or_default(); *e = (F::from_canonical_u64(*e) + f).to_canonical_u64(); }
            }
        }
    }
    // what was added and taken away again did not happen
    b.retain(|_, n| *n != 0);
    b
}
pub fn reg_ix() -> (usize, usize, usize, usize) {
    let v: mozak_circuits::register::RegisterCtl<usize> = (0..4).collect();
    (v.clk, v.op, v.addr, v.value)
}
pub fn mem_ix() -> [usize; 5] {
    let v: mozak_circuits::memory::columns::MemoryCtl<usize> = (0..5).collect();
    [v.clk, v.is_store, v.is_load, v.addr, v.value]
}
pub fn claim(rules: &Rules, w: &World) -> Claim {
    let (_, op, addr, _) = reg_ix();
    let mut regs = bag(rules, w, K::Register, 4);
    // what is written to register 0 goes nowhere
    regs.retain(|k, _| !(k[addr] == 0 && k[op] == 2));
    let v: mozak_circuits::cpu_skeleton::columns::CpuSkeletonCtl<usize> = (0..4).collect();
    let mut flow = Bag::new();
    for (mut k, n) in bag(rules, w, K::CpuSkeleton, 4) {
        // nothing comes after a halt
        if k[v.will_halt] == 1 { k[v.new_pc] = 0; }
        let e: &mut u64 = flow.entry(k).or_default();
        *e = (F::from_canonical_u64(*e) + F::from_canonical_u64(n)).to_canonical_u64();
    }
    flow.retain(|_, n| *n != 0);
    Claim { flow, regs, mem: bag(rules, w, K::Memory, 5) }
}

pub const TAPES: [K; 7] = [K::StorageDevicePrivate, K::StorageDevicePublic, K::CallTape, K::EventTape, K::EventsCommitmentTape, K::CastListCommitmentTape, K::SelfProgIdTape];

/// Is there an input on which the program does what the world says?
pub fn judge(ctx: &Ctx, program: &Program, w: &World) -> Result<(), Fail> {
    let rules = &ctx.rules;
    let mine = claim(rules, w);
    // the registers at the start, known to the verifier
    let (_, _, addr, value) = reg_ix();
    let mut state: State<F> = State::new(program.clone(), Default::default());
    for s in rules.ctls.iter().flatten().filter(|s| s.table == K::RegisterInit as usize) {
        for r in 0..w.t[s.table].len() {
            let (_, v) = w.side(s, r);
            state = state.set_register_value(v[addr] as u8, v[value] as u32);
        }
    }
    let commits: Vec<[u8; 32]> = rules.subs.iter().map(|s| {
        let v = w.sub(s);
        std::array::from_fn(|i| v.get(i).map_or(0, |x| *x as u8))
    }).collect();
    for s in &rules.subs {
        let v = w.sub(s);
        // a proof with another number of public values is refused for that
        if v.len() != 32 { return Ok(()); }
    }
    // the bytes of each tape read, by its clock
    let [clk, _, _, maddr, mval] = mem_ix();
    let mut reads: HashMap<(usize, u64), Vec<u8>> = HashMap::new();
    for s in rules.ctls.iter().flatten().filter(|s| s.cols.len() == 5) {
        if let Some(d) = TAPES.iter().position(|k| *k as usize == s.table) {
            for r in 0..w.t[s.table].len() {
                let (f, v) = w.side(s, r);
                if f != F::ZERO {
                    if v[mval] > 255 { return Err(Fail::from(format!("a tape holds {v:?}"))); }
                    reads.entry((d, v[clk])).or_default().push(v[mval] as u8);
                }
                let _ = maddr;
            }
        }
    }
    let mut executed = vec![];
    let steps = mine.flow.values().map(|x| *x as usize).fold(0usize, usize::saturating_add).min(2 * CAP);
    while !state.halted && executed.len() <= steps {
        let c = state.clk;
        let get = |d: usize| reads.get(&(d, c)).cloned().unwrap_or_default();
        let tape = |d: usize| StorageDeviceTape { data: get(d).into(), read_index: 0 };
        state.private_tape = tape(0);
        state.public_tape = tape(1);
        state.call_tape = tape(2);
        state.event_tape = tape(3);
        state.events_commitment_tape = CommitmentTape(commits[0]);
        state.cast_list_commitment_tape = CommitmentTape(commits[1]);
        let id = get(6);
        if id.len() == 32 { state.self_prog_id_tape = id.try_into().unwrap(); }
        let before = state.clone();
        // how much a read returns is up to the tape, but at most what was asked for, and all of an identity or commitment
        if matches!(state.current_instruction(program), Some(Ok(i)) if i.op == Op::ECALL) {
            let (call, asked) = (state.get_register_value(10), state.get_register_value(12) as usize);
            let d = match call { 2 => 0, 4..=9 => call as usize - 3, _ => 7 };
            let n = get(d).len();
            if d < 7 && (n > asked || d > 3 && n != asked.min(32)) {
                return Err(Fail { sig: Some("tape-read-length".into()), msg: format!("a read of {asked} bytes from tape {d} returns {n} at step {c}") });
            }
        }
        let (aux, instruction, next) = go(program, &state).map_err(Fail::from)?;
        executed.push(Row { state: before, instruction, aux });
        state = next;
    }
    ensure_that!(state.halted, "the VM does not halt within the {steps} steps proved");
    let record = ExecutionRecord { executed, last_state: state };
    let want = claim(rules, &World::generate(program, &record));
    for (name, a, b) in [("control flow (clk, pc, next pc, halts or not)", &mine.flow, &want.flow), ("register access (clk, op, register, value)", &mine.regs, &want.regs), ("memory access (clk, store, load, address, value)", &mine.mem, &want.mem)] {
        let only = |x: &Bag, y: &Bag| x.iter().filter(|(k, v)| y.get(*k) != Some(*v)).map(|x| x.0.clone()).take(3).collect::<Vec<_>>();
        if a != b { return Err(Fail::from(format!("{name}: the proof has {:?}, the VM {:?}", only(a, b), only(b, a)))); }
    }
    Ok(())
}

// ---- lies ----------------------------------------------------------------------------

fn alu(k: u32, a: u32, b: u32) -> u32 {
    let (sa, sb) = (a as i32, b as i32);
    match k % 20 {
        0 => a.wrapping_add(b), 1 => a.wrapping_sub(b), 2 => a & b, 3 => a | b, 4 => a ^ b,
        5 => a.wrapping_shl(b), 6 => a.wrapping_shr(b), 7 => sa.wrapping_shr(b) as u32,
        8 => u32::from(a < b), 9 => u32::from(sa < sb),
        10 => a.wrapping_mul(b),
        11 => (u64::from(a) * u64::from(b) >> 32) as u32,
        12 => (i64::from(sa) * i64::from(sb) >> 32) as u32,
        13 => (i64::from(sa) * i64::from(b) >> 32) as u32,
        14 => a.checked_div(b).unwrap_or(u32::MAX), 15 => a.checked_rem(b).unwrap_or(a),
        16 => sa.checked_div(sb).unwrap_or(-1) as u32, 17 => sa.checked_rem(sb).unwrap_or(sa) as u32,
        18 => b,
        _ => 65536 * (16384 + a % 16384),
    }
}
fn pick(how: u8, x: u32, honest: u32, a: u32, b: u32, pc: u32) -> u32 {
    match how % 20 {
        0 => honest.wrapping_add(1), 1 => honest.wrapping_sub(1), 2 | 3 => honest ^ 1 << (x % 32), 4 => x, 5 => 0, 6 => 1, 7 => u32::MAX,
        8 => a, 9 => b,
        10..=12 => alu(x, a, b),
        13 => honest as u8 as i8 as u32, 14 => honest & 0xff, 15 => honest as u16 as i16 as u32, 16 => honest & 0xffff,
        17 => pc.wrapping_add(4 * (x % 8)), 18 => honest.wrapping_neg(), _ => honest.wrapping_add(x % 64).wrapping_sub(32),
    }
}

/// One step of the VM, unless it would hash half of the address space.
pub fn go(program: &Program, s: &State<F>) -> Result<(mozak_runner::state::Aux<F>, Instruction, State<F>), String> {
    let x = |k: u8| s.get_register_value(k);
    let call = matches!(s.current_instruction(program), Some(Ok(i)) if i.op == Op::ECALL);
    if call && matches!(x(10), 1 | 3 | 10) && x(12) > 512 { return Err("reads too much memory".into()); }
    match guarded(|| s.clone().execute_instruction(program)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("the VM stops at step {}: {e}", s.clk)),
        Err(e) => Err(format!("the VM panics at step {}: {e}", s.clk)),
    }
}

/// The row of a false step, and the state it leads to.
fn cheat(program: &Program, s: &State<F>, what: u8, how: u8, x: u32) -> Option<(Row<F>, State<F>)> {
    let run = |s: &State<F>, p: &Program| go(p, s).ok();
    let (mut aux, ins, mut next) = run(s, program)?;
    let mut row = s.clone();
    let pc = s.get_pc();
    let (a, b) = (aux.op1, aux.op2_raw);
    let v = |honest: u32| pick(how, x, honest, a, b, pc);
    let visible = what / 32 % 2 == 1;
    // run the instruction in another state, then undo what it did not change itself
    let elsewhere = |other: State<F>, p: &Program| -> Option<(Row<F>, State<F>)> {
        let (aux2, ins2, mut n) = run(&other, p)?;
        for k in 0..32 { if n.registers[k] == other.registers[k] { n.registers[k] = s.registers[k]; } }
        Some((Row { state: if visible { other } else { s.clone() }, instruction: if visible { ins2 } else { ins }, aux: aux2 }, n))
    };
    let code = |pc: u32| program.ro_code.0.contains_key(&pc);
    let set_pc = |next: &mut State<F>, aux: &mut mozak_runner::state::Aux<F>, to: u32| { next.pc = to; aux.new_pc = to; };
    match what % 12 {
        0 | 1 => {
            let d = v(aux.dst_val);
            aux.dst_val = d;
            if ins.args.rd != 0 { next.registers[ins.args.rd as usize] = d; }
        }
        2 => {
            let to = pick(how, x, next.pc, a, b, pc);
            let to = if code(to) { to } else { pc.wrapping_add(4 * (x % 9)).wrapping_sub(16) };
            if !code(to) { return None; }
            set_pc(&mut next, &mut aux, to);
        }
        3 | 4 => {
            // a false operand
            let r = match (ins.op, what % 12) {
                (Op::ECALL, _) => 10 + (x >> 5) as u8 % 4,
                (_, 3) => ins.args.rs1,
                _ => ins.args.rs2,
            };
            let mut other = s.clone();
            other.registers[r as usize] = v(s.registers[r as usize]);
            return elsewhere(other, program);
        }
        5 => {
            // memory that never was
            let mut other = s.clone();
            for ad in &aux.mem_addresses_used { other = { let mut o = other; o.memory.data.insert(*ad, v(u32::from(s.load_u8(*ad))) as u8); o }; }
            let (r, mut n) = elsewhere(other, program)?;
            if !matches!(ins.op, Op::SB | Op::SH | Op::SW | Op::ECALL) { n.memory = s.memory.clone(); }
            return Some((r, n));
        }
        6 => {
            // another instruction of the program, here
            let all: Vec<u32> = { let mut k: Vec<u32> = program.ro_code.0.keys().copied().collect(); k.sort_unstable(); k };
            let from = program.ro_code.0[&all[x as usize % all.len()]].clone().ok()?;
            let mut p = program.clone();
            p.ro_code.0.insert(pc, Ok(from));
            return elsewhere(s.clone(), &p);
        }
        7 => {
            // another operation on the same operands
            let ops = [Op::ADD, Op::SUB, Op::SRL, Op::SRA, Op::SLL, Op::SLT, Op::SLTU, Op::LB, Op::LBU, Op::LH, Op::LHU, Op::LW, Op::XOR, Op::OR, Op::AND, Op::DIV, Op::DIVU, Op::REM, Op::REMU, Op::MUL, Op::MULH, Op::MULHU, Op::MULHSU, Op::JALR, Op::BEQ, Op::BNE, Op::BLT, Op::BLTU, Op::BGE, Op::BGEU, Op::SB, Op::SH, Op::SW, Op::ECALL];
            let mut p = program.clone();
            p.ro_code.0.insert(pc, Ok(Instruction::new(ops[x as usize % ops.len()], ins.args)));
            return elsewhere(s.clone(), &p);
        }
        8 => {
            aux.will_halt = !aux.will_halt;
            next.halted = aux.will_halt;
            if aux.will_halt && how % 2 == 0 { set_pc(&mut next, &mut aux, pc); }
            if !aux.will_halt {
                let to = pick(how, x, pc.wrapping_add(4), a, b, pc);
                let to = if code(to) { to } else { BASE };
                set_pc(&mut next, &mut aux, to);
            }
        }
        9 | 10 => {
            if let Some(e) = &mut aux.storage_device_entry {
                let mut data = e.data.clone();
                match how % 6 {
                    0 => data.push(x as u8),
                    1 => data.extend(std::iter::repeat(x as u8).take(1 + (x >> 8) as usize % 4)),
                    2 => { data.pop(); }
                    3 => e.addr = v(e.addr),
                    4 => { let n = data.len(); if n > 0 { data[(x >> 8) as usize % n] ^= x as u8 | 1; } }
                    _ => data.clear(),
                }
                e.data = data;
                next.memory = s.memory.clone();
                for (i, byte) in e.data.iter().enumerate() { next.memory.data.insert(e.addr.wrapping_add(i as u32), *byte); }
            } else if let Some(h) = &mut aux.poseidon2 {
                match how % 4 {
                    0 => h.output_addr = v(h.output_addr),
                    1 => { let n = h.sponge_data.len(); if n > 1 { h.sponge_data.truncate(1 + x as usize % (n - 1)); h.len = 8 * h.sponge_data.len() as u32; if let Some(l) = h.sponge_data.last_mut() { l.gen_output = F::ONE; } } }
                    _ => if let Some(l) = h.sponge_data.last_mut() { let i = x as usize % 4; l.output[i] += F::from_canonical_u32(1 + x % 300); },
                }
                next.memory = s.memory.clone();
                let out = h.sponge_data.last()?.output;
                for i in 0..32 { next.memory.data.insert(h.output_addr.wrapping_add(i as u32), (out[i / 8].to_canonical_u64() >> (8 * (i % 8))) as u8); }
            } else if let Some(m) = &mut aux.mem {
                if how % 2 == 0 { m.raw_value = v(m.raw_value); } else { m.addr = v(m.addr); }
            } else { return None; }
        }
        _ => {
            // what the step did is forgotten, or something else is done besides
            match how % 4 {
                0 => { next.registers = s.registers; }
                1 => { next.memory = s.memory.clone(); }
                2 => { let r = 1 + x as usize % 31; next.registers[r] = v(s.registers[r]); }
                _ => { let k: Vec<u32> = s.memory.data.keys().copied().collect(); let ad = *k.get(x as usize % k.len().max(1))?; next.memory.data.insert(ad, v(0) as u8); }
            }
        }
    }
    row.clk = s.clk;
    Some((Row { state: row, instruction: ins, aux }, next))
}

pub fn follow(program: &Program, mut s: State<F>, out: &mut Vec<Row<F>>) -> Option<State<F>> {
    while !s.halted {
        if out.len() > CAP { return None; }
        let (aux, instruction, next) = go(program, &s).ok()?;
        out.push(Row { state: s, instruction, aux });
        s = next;
    }
    Some(s)
}

/// A world with a lie in it, and the cells the lie consists of.
pub fn lying(ctx: &Ctx, case: &Case) -> Option<(Program, World, Vec<(usize, usize, usize)>, Vec<usize>)> {
    let (_, program, state) = drive::setup(&case.p);
    let mut rows = vec![];
    let last = follow(&program, state, &mut rows)?;
    let record = ExecutionRecord { executed: rows, last_state: last };
    if c16::limits(&record).any() { return None; }
    match case.lie {
        Lie::Step { at, what, how, x, loose } => {
            let mut rows = record.executed;
            let at = at as usize % rows.len();
            let s = rows[at].state.clone();
            rows.truncate(at);
            let (row, next) = cheat(&program, &s, what, how, x)?;
            rows.push(row);
            let last = follow(&program, next, &mut rows)?;
            let mut w = guarded(|| World::generate(&program, &ExecutionRecord { executed: rows, last_state: last })).ok()?;
            let mut frozen = vec![];
            let mut pins = vec![];
            match loose % 4 {
                0 | 1 => frozen = vec![K::Register as usize, K::RegisterZeroRead as usize, K::RegisterZeroWrite as usize, K::RegisterInit as usize, K::Memory as usize, K::MemoryZeroInit as usize, K::CpuSkeleton as usize],
                k => {
                    // the instructions stand by it; what keeps their effects may be changed
                    for s in ctx.rules.ctls.iter().flatten() {
                        if [K::Cpu, K::Add, K::BltTaken].iter().any(|t| *t as usize == s.table) && s.cols.len() >= 4 {
                            for r in 0..w.t[s.table].len() {
                                for fm in s.cols.iter().chain([&s.filter]) { for (c, _) in &fm.lv { pins.push((s.table, r, *c)); } }
                            }
                        }
                    }
                    if k == 3 {
                        // what contradicts the neighbours goes elsewhere
                        for t in [K::Register as usize, K::Memory as usize] {
                            let mut bad = vec![];
                            w.rows_bad(&ctx.rules, t, 0..w.t[t].len(), &ctx.mask, &mut bad);
                            let at: Option<usize> = bad.iter().find_map(|b| if let crate::world::Bad::Constraint(_, r, _) = b { Some(*r) } else { None });
                            if let Some(r) = at {
                                let n = w.t[t].len();
                                let r = (r + (x >> 8) as usize % 2) % n;
                                let row = w.t[t].remove(r);
                                let to = (r + n - 8 + (x >> 12) as usize % 16) % n;
                                w.t[t].insert(to, row);
                            }
                        }
                    }
                }
            }
            Some((program, w, pins, frozen))
        }
        Lie::Cell { t, r, c, how, x } => {
            let mut w = guarded(|| World::generate(&program, &record)).ok()?;
            let t = t as usize % 30;
            let r = r as usize % w.t[t].len();
            let c = c as usize % w.t[t][0].len();
            let old = w.t[t][r][c];
            let new = match how % 9 {
                0 => old + F::ONE, 1 => old - F::ONE, 2 => F::ONE - old, 3 => F::ZERO, 4 => old + F::from_noncanonical_u64(1 << (x % 33)),
                5 => old - F::from_noncanonical_u64(1 << (x % 33)), 6 => w.t[t][(r + 1 + x as usize) % w.t[t].len()][c],
                7 => w.t[t][r][x as usize % w.t[t][0].len()], _ => F::from_noncanonical_u64(x),
            };
            if new == old { return None; }
            w.t[t][r][c] = new;
            Some((program, w, vec![(t, r, c)], vec![]))
        }
        Lie::Rows { t, how, a, b } => {
            let mut w = guarded(|| World::generate(&program, &record)).ok()?;
            let t = t as usize % 30;
            let n = w.t[t].len();
            let (a, b) = (a as usize % n, b as usize % n);
            let mut pins = vec![];
            match how % 5 {
                0 => w.t[t].swap(a, b),
                1 => { let row = w.t[t][a].clone(); w.t[t].insert(b, row); w.t[t].pop(); pins.extend((0..w.t[t][0].len()).map(|c| (t, b, c))); }
                2 => { w.t[t].remove(a); let l = w.t[t].last().cloned()?; w.t[t].push(l); }
                3 => { let row = w.t[t].remove(a); w.t[t].insert(b, row); }
                _ => { let row = w.t[t][a].clone(); w.t[t][b] = row; pins.extend((0..w.t[t][0].len()).map(|c| (t, b, c))); }
            }
            Some((program, w, pins, vec![]))
        }
    }
}

pub fn oracle(ctx: &Ctx, case: &Case) -> Verdict {
    let Some((program, w, pins, frozen)) = lying(ctx, case) else { return Ok(Obs::new(false)) };
    let mut f = Forge::new(&ctx.rules, &ctx.slps, w, ctx.roles.clone(), ctx.mask.clone());
    f.frozen[K::RegisterInit as usize] = true;
    if let Lie::Cell { t, .. } | Lie::Rows { t, .. } = case.lie { if f.frozen[t as usize % 30] { return Ok(Obs::new(false)); } }
    for t in frozen { f.frozen[t] = true; }
    f.fixed.extend(pins);
    f.budget = ctx.budget;
    f.scan();
    let first = f.open();
    if first > 200 { return Ok(Obs::new(false)); }
    let solved = f.solve(1, 0) || { f.nodes = 0; f.solve(4, 0) };
    {
        let mut al = ctx.alone.lock().unwrap();
        for r in &f.alone { *al.entry(*r).or_default() += 1; }
    }
    let o = Obs::new(first > 0).class(solved, "nothing to object to in the end").class(f.nodes > 1, "something was repaired").class(f.alone.len() > 0, "one objection left at some point");
    if !solved { return Ok(o); }
    f.scan();
    assert!(f.open() == 0, "the search lost track of an objection");
    let verdict = guarded(|| judge(ctx, &program, &f.w));
    match verdict {
        Ok(Ok(())) => Ok(o.class(true, "another valid trace")),
        Ok(Err(e)) if std::env::var("SHOW").is_ok() => {
            let (_, w, ..) = lying(ctx, case).unwrap();
            let mut out = String::new();
            for t in 0..30 { for r in 0..w.t[t].len() {
                for c in 0..w.t[t][r].len() { if w.t[t][r][c] != f.w.t[t][r][c] { out += &format!("  {:?} row {r} column {c}: {} -> {}\n", kind(t), w.t[t][r][c], f.w.t[t][r][c]); } }
            } }
            let g = Forge::new(&ctx.rules, &ctx.slps, w, ctx.roles.clone(), ctx.mask.clone());
            let mut g = g; g.scan();
            Err(Fail { sig: e.sig, msg: format!("the verifier has nothing to object to, but {}\n{out}{:?}", e.msg, g.objections()) })
        }
        Ok(Err(e)) => Err(Fail { sig: e.sig, msg: format!("the verifier has nothing to object to, but {}", e.msg) }),
        Err(e) => Err(Fail::from(format!("judging: {e}"))),
    }
}

// ---- cases ---------------------------------------------------------------------------

fn own_items() -> BoxedStrategy<Item> {
    let div = (1u8..8, prop::sample::select(vec![16385u32, 16400, 20000, 30000, 32768, 40000]), 0u8..4).prop_map(|(r, m, _)| Item::Set(r, m * (4 * m - 65536)));
    prop_oneof![12 => c16::items(), 1 => div, 1 => (1u8..8).prop_map(|r| Item::Set(r, 1))].boxed()
}
pub fn progs(max: usize) -> BoxedStrategy<Prog> {
    gen::prog(own_items(), max, true).prop_map(|mut p| { p.base = BASE; c16::tame(c16::provable(p)) }).boxed()
}
pub fn step_lies() -> BoxedStrategy<Case> {
    (progs(5), any::<u16>(), any::<u8>(), any::<u8>(), prop_oneof![0u32..64, gen::val()], 0u8..4)
        .prop_map(|(p, at, what, how, x, loose)| Case { p, lie: Lie::Step { at, what, how, x, loose } }).boxed()
}
pub fn cell_lies() -> BoxedStrategy<Case> {
    (progs(5), prop_oneof![6 => Just(0u8), 12 => 0u8..30, 3 => prop::sample::select(vec![6u8, 20, 26])], any::<u16>(), any::<u16>(), 0u8..9, prop_oneof![0u64..64, any::<u64>()])
        .prop_map(|(p, t, r, c, how, x)| Case { p, lie: Lie::Cell { t, r: if how > 4 { r } else { r % 24 }, c, how, x } }).boxed()
}
pub fn row_lies() -> BoxedStrategy<Case> {
    (progs(5), prop_oneof![1 => 0u8..30, 1 => prop::sample::select(vec![6u8, 20, 20, 26, 8, 29, 24, 25, 12, 15, 0])], 0u8..5, any::<u16>(), any::<u16>())
        .prop_map(|(p, t, how, a, b)| Case { p, lie: Lie::Rows { t, how, a, b } }).boxed()
}

// ---- the helper tables, each on its own ----------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Helped {
    pub x: u32, pub y: u32, pub len: u8,
    /// which table, which of its rows (from the start, or anywhere)
    pub t: u8, pub r: u16, pub far: bool,
    /// the false cell, or the false part of what a row offers
    pub part: bool, pub c: u16, pub how: u8, pub v: u64,
    /// values of fields to begin with
    pub fields: [u64; 4],
    /// rows added to the table, of what kind
    pub grow: u8,
}
const HELPERS: [K; 6] = [K::RangeCheck, K::RangeCheckU8, K::Xor, K::Bitshift, K::Poseidon2, K::Poseidon2OutputBytes];
pub fn helped() -> BoxedStrategy<Helped> {
    let field = || prop_oneof![3 => any::<u64>(), 2 => 0u64..3, 2 => (0u64..3).prop_map(|x| F::ORDER - 1 - x), 2 => 0xffff_fffcu64..0x1_0000_0003, 1 => (0u64..9).prop_map(|x| 0xffff_fffe_ffff_fffc + x)].prop_map(|x| x % F::ORDER);
    ((gen::val(), gen::val(), 0u8..40), prop_oneof![5 => 0u8..6, 1 => Just(5u8), 1 => Just(2u8), 8 => Just(4u8)], any::<u16>(), prop::bool::weighted(0.2), any::<bool>(), any::<u16>(), 0u8..10,
        prop_oneof![3 => 0u64..64, 2 => any::<u64>(), 1 => field()], ([field(), field(), field(), field()], prop_oneof![7 => Just(0u8), 3 => 1u8..6]))
        .prop_map(|((x, y, len), t, r, far, part, c, how, v, (fields, grow))| Helped { x, y, len, t, r, far, part, c, how, v, fields, grow }).boxed()
}
/// The side by which others use a helper table.
fn offer(ctx: &Ctx, t: usize) -> (usize, usize) {
    let all = || ctx.rules.ctls.iter().enumerate().flat_map(|(k, s)| s.iter().enumerate().map(move |(j, x)| (k, j, j + 1 == s.len(), x)));
    all().find(|x| x.3.table == t && if matches!(ctx.roles[x.0], Role::Balance | Role::Off) { x.3.cols.len() != 5 } else { x.2 }).map(|x| (x.0, x.1)).unwrap()
}
/// What the rows of a helper table offer has to be so.
fn offers(ctx: &Ctx, t: usize, w: &World) -> Result<(), Fail> {
    {
        let (k, j) = offer(ctx, t);
        let s = &ctx.rules.ctls[k][j];
        for r in 0..w.t[t].len() {
            let (f, v) = w.side(s, r);
            if f == F::ZERO { continue; }
            let ok = match ctx.roles[k] {
                Role::U32 => v[0] < 1 << 32,
                Role::U8 => v[0] < 256,
                Role::Xor => v.iter().all(|x| *x < 1 << 32) && v[0] ^ v[1] == v[2],
                Role::Shift => v[0] < 32 && v[1] == 1 << v[0],
                _ if t == K::Poseidon2 as usize => {
                    let x: Vec<F> = v.iter().map(|x| F::from_canonical_u64(*x)).collect();
                    let mut p = Poseidon2Permutation::new(x[..12].iter().copied());
                    p.permute();
                    p.as_ref() == &x[12..]
                }
                _ if t == K::Poseidon2OutputBytes as usize => {
                    let mem: Vec<Vec<u64>> = ctx.rules.ctls.iter().flatten().filter(|s| s.table == t && s.cols.len() == 5).map(|s| w.side(s, r).1).collect();
                    let [.., val] = mem_ix();
                    // the memory table keeps numbers that are no bytes out
                    if mem.iter().any(|m| m[val] > 255) { continue; }
                    let bytes: Vec<u8> = mem.iter().map(|m| m[val] as u8).collect();
                    let want: Vec<u8> = v[v.len() - 4..].iter().flat_map(|x| x.to_le_bytes()).collect();
                    if bytes != want { return Err(Fail::from(format!("the fields {:?} are written as {bytes:?}, not {want:?}", &v[v.len() - 4..]))); }
                    true
                }
                _ => true,
            };
            ensure_that!(ok, "{:?} offers {v:?}", kind(t));
        }
    }
    Ok(())
}
pub fn alone(ctx: &Ctx, h: &Helped) -> Verdict {
    let items = vec![Item::Set(1, h.x), Item::Set(2, h.y), Item::R(6, 3, 1, 2), Item::R(2, 3, 1, 2), Item::R(12, 3, 1, 2), Item::Ecall(3, 0x4000, u32::from(h.len % 6 + 1) * 8, 0x5000)];
    let p = Prog { base: BASE, items, regs: vec![0; 31], rw: vec![], ro: vec![], tapes: vec![vec![]; 4], commits: (0, 0, 0) };
    let (_, program, state) = drive::setup(&p);
    let mut rows = vec![];
    let Some(last_state) = follow(&program, state, &mut rows) else { return Ok(Obs::new(false)) };
    let Ok(w) = guarded(|| World::generate(&program, &ExecutionRecord { executed: rows, last_state })) else { return Ok(Obs::new(false)) };
    let t = HELPERS[h.t as usize % 6] as usize;
    let mut f = Forge::new(&ctx.rules, &ctx.slps, w, ctx.roles.clone(), ctx.mask.clone());
    f.only(t);
    f.budget = 700;
    f.depth = 600;
    let n = f.w.t[t].len();
    let width = f.w.t[t][0].len();
    let (k, j) = offer(ctx, t);
    let s = ctx.rules.ctls[k][j].clone();
    let used: Vec<usize> = (0..n).filter(|r| f.w.side(&s, *r).0 != F::ZERO).collect();
    let r = if h.far || used.is_empty() { h.r as usize % n } else { used[h.r as usize % used.len()] };
    let table = f.w.t[t].clone();
    match h.grow {
        // twice as long, with more of the same
        1 => f.w.t[t].extend(table),
        2 => { let l = table[n - 1].clone(); f.w.t[t].extend(vec![l; n]) }
        3 => { let l = table[0].clone(); f.w.t[t] = vec![l; n].into_iter().chain(table).collect() }
        // counting on, or from further back
        4 => for i in 0..n { let row = (0..width).map(|c| table[n - 1][c] + (table[n - 1][c] - table[n - 2][c]) * F::from_canonical_u64(i as u64 + 1)).collect(); f.w.t[t].push(row); },
        5 => for i in 0..n { let row = (0..width).map(|c| table[0][c] - (table[1][c] - table[0][c]) * F::from_canonical_u64(i as u64 + 1)).collect(); f.w.t[t].insert(0, row); },
        _ => {}
    }
    let n = f.w.t[t].len();
    let mut begun = vec![];
    if t == K::Poseidon2OutputBytes as usize {
        // any digest
        let (_, mut v) = f.w.side(&s, r);
        let at = v.len() - 4;
        v[at..].copy_from_slice(&h.fields);
        begun = f.retuple(k, j, r, &v).unwrap_or_default();
        f.scan();
        for (c, x) in &begun { f.set(*c, *x); f.fixed.insert(*c); }
        if s.filter.at(&f.w.t[t][r], &f.w.t[t][(r + 1) % n]) == F::ZERO { for (c, _) in &s.filter.lv { f.set((t, r, *c), F::ONE); f.fixed.insert((t, r, *c)); } }
        // in their bytes, or in other bytes that mean the same
        let mut bytes: Vec<u64> = h.fields.iter().flat_map(|x| (if h.how == 9 && *x < 0xffff_ffff { x + F::ORDER } else { *x }).to_le_bytes()).map(u64::from).collect();
        for s in ctx.rules.ctls.iter().flatten().filter(|s| s.table == t && s.cols.len() == 5) {
            let form = &s.cols[mem_ix()[4]];
            if let [(c, a)] = form.lv[..] { f.set((t, r, c), F::from_canonical_u64(bytes.remove(0)) * a.inverse()); if h.how == 9 { f.fixed.insert((t, r, c)); } }
        }
        if h.how != 9 {
            // whatever else depends on them
            f.propagate();
            if f.open() > 0 { f.solve(1, 0); }
            if f.open() > 0 && ctx.mask.constraints.is_empty() { return Ok(Obs::new(false)); }
        }
    }
    f.scan();
    let base = f.open();
    if !(t == K::Poseidon2OutputBytes as usize && h.how == 9) {
        let c = if h.part {
            // one part of what the row offers, and leave the others alone
            let form = &s.cols[h.c as usize % s.cols.len()];
            let mut cells: Vec<usize> = s.cols.iter().flat_map(|x| x.lv.iter().map(|c| c.0)).collect();
            cells.sort_unstable();
            for c in cells { f.fixed.insert((t, r, c)); }
            if form.lv.is_empty() { return Ok(Obs::new(false)); }
            form.lv[h.c as usize / 64 % form.lv.len()].0
        } else { h.c as usize % width };
        let old = f.w.t[t][r][c];
        let new = match h.how % 9 {
            0 => old + F::ONE, 1 => old - F::ONE, 2 => F::ONE - old, 3 => F::ZERO, 4 => old + F::from_canonical_u64(1 << (h.v % 33)), 5 => old - F::from_canonical_u64(1 << (h.v % 33)),
            6 => f.w.t[t][(r + 1 + h.v as usize % 8) % n][c], 7 => f.w.t[t][r][h.v as usize % width], _ => F::from_noncanonical_u64(h.v),
        };
        if new == old && begun.is_empty() { return Ok(Obs::new(false)); }
        f.set((t, r, c), new);
        f.fixed.insert((t, r, c));
    }
    let first = f.open();
    if first > 40 { return Ok(Obs::new(false)); }
    let (w, fixed) = (f.w.clone(), f.fixed.clone());
    let mut solved = f.propagate();
    if !solved && t != K::Poseidon2 as usize {
        f.w = w;
        f.fixed = fixed;
        f.scan();
        solved = f.solve(1, 0);
    }
    {
        let mut al = ctx.alone.lock().unwrap();
        for r in &f.alone { *al.entry(*r).or_default() += 1; }
    }
    let o = Obs::new(first > 0).class(true, ["range checks", "byte range checks", "XOR", "shift amounts", "Poseidon2", "Poseidon2 output bytes"][h.t as usize % 6]).class(solved, "nothing to object to in the end").class(f.nodes > 1, "something was repaired").class(base == 0 && first == 0, "nothing to object to");
    if !solved { return Ok(o); }
    f.scan();
    assert!(f.open() == 0, "the search lost track of an objection");
    offers(ctx, t, &f.w)?;
    Ok(o)
}

pub fn missing(ctx: &Ctx) -> Vec<Rule> {
    let seen: BTreeSet<Rule> = ctx.alone.lock().unwrap().keys().copied().collect();
    let mut v = vec![];
    for (t, s) in ctx.slps.iter().enumerate() { for k in 0..s.len() { if !seen.contains(&Rule::Constraint(t, k)) { v.push(Rule::Constraint(t, k)); } } }
    for (k, r) in ctx.roles.iter().enumerate() {
        match r {
            Role::Off => {}
            Role::Balance => if !seen.contains(&Rule::Lookup(k)) { v.push(Rule::Lookup(k)); },
            _ => for j in 0..ctx.rules.ctls[k].len() { if !seen.contains(&Rule::Tuple(k, j)) { v.push(Rule::Tuple(k, j)); } },
        }
    }
    v
}

pub fn check() -> ! {
    let mut c = Check::new("C17");
    let ctx = Ctx::new();
    let rule = "the verifier objects to the lie at first";
    // for trying out one of them
    let some = std::env::var("C17_ONLY").unwrap_or_default();
    let on = |n: &str| some.is_empty() || n == some;
    if on("steps") { c.run("false steps", rule, c.cases(4000, 20), step_lies, |x| oracle(&ctx, x)); }
    if on("cells") { c.run("false cells", rule, c.cases(4000, 20), cell_lies, |x| oracle(&ctx, x)); }
    if on("rows") { c.run("false rows", rule, c.cases(2000, 20), row_lies, |x| oracle(&ctx, x)); }
    if on("locals") { c.run("tables on their own", rule, c.cases(20000, 20), local::locals, |x| local::local(&ctx, x)); }
    if on("helpers") { c.run("helper tables", rule, c.cases(8000, 20), helped, |x| alone(&ctx, x)); }
    let m = missing(&ctx);
    let total: usize = ctx.slps.iter().map(Slp::len).sum();
    eprintln!("rules that were once all that was in the way: {}; not: {} (of {total} constraints and the lookups)", ctx.alone.lock().unwrap().len(), m.len());
    if std::env::var("SHOW").is_ok() {
        let mut by: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for r in &m {
            match r {
                Rule::Constraint(t, k) => by.entry(format!("{:?}", kind(*t))).or_default().push(*k),
                Rule::Tuple(k, j) => by.entry(format!("ctl {k} {:?}", kind(ctx.rules.ctls[*k][*j].table))).or_default().push(*j),
                Rule::Lookup(k) => by.entry("lookups".into()).or_default().push(*k),
            }
        }
        for (t, k) in by { eprintln!("  {t}: {k:?}"); }
    }
    c.finish()
}

/// How well would the search notice a rule that is not there?
pub fn sweep(n: usize, filter: &str) {
    use proptest::strategy::ValueTree;
    std::panic::set_hook(Box::new(|_| {}));
    let base = Ctx::new();
    let mut rules = vec![];
    for (t, s) in base.slps.iter().enumerate() { for k in 0..s.len() { rules.push((format!("{:?}", kind(t)), Some((t, k)), None)); } }
    for k in 0..base.rules.ctls.len() { if base.roles[k] != Role::Off { for j in 0..base.rules.ctls[k].len() { rules.push((format!("ctl{k}"), None, Some((k, j)))); } } }
    let helpers = filter == "helpers";
    if helpers { rules.retain(|r| HELPERS.iter().any(|k| r.0 == format!("{k:?}")) || r.0 == "ctl7" && r.2.unwrap().1 < 4); } else {
    rules.retain(|r| filter.split(',').any(|f| r.0 == f) || filter == "all" && r.0 != "Poseidon2" && r.0 != "Xor"); }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || {
                let mut ctx = Ctx::new();
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some((name, c, l)) = rules.get(i) else { return };
                    ctx.mask = Mask { constraints: c.iter().copied().collect(), lookups: l.iter().copied().collect() };
                    let mut r = proptest::test_runner::TestRunner::deterministic();
                    let (a, b, d) = (step_lies(), cell_lies(), row_lies());
                    let mut found = None;
                    let hs = helped();
                    for j in 0..n {
                        if helpers {
                            let mut case = hs.new_tree(&mut r).unwrap().current();
                            if let Some((t, _)) = c { case.t = HELPERS.iter().position(|k| *k as usize == *t).unwrap() as u8; } else { case.t = 0; }
                            if let Err(e) = alone(&ctx, &case) { found = Some((j, format!("{case:?} {}", e.msg))); break; }
                            continue;
                        }
                        let case = match j % 5 { 0 | 1 => a.new_tree(&mut r), 2 | 3 => b.new_tree(&mut r), _ => d.new_tree(&mut r) }.unwrap().current();
                        if let Err(e) = oracle(&ctx, &case) {
                            if e.sig.is_none() { found = Some((j, format!("{:?} {}", case.lie, e.msg))); break; }
                        }
                    }
                    let what = if let Some((t, k)) = c { format!("{:?} {k}", kind(*t)) } else { let (k, j) = l.unwrap(); format!("{name} {j} {:?}", kind(ctx.rules.ctls[k][j].table)) };
                    let line = match &found { Some((j, m)) => format!("found {what} after {j}: {}", m.chars().take(260).collect::<String>()), None => format!("MISSED {what}") };
                    println!("{line}");
                    out.lock().unwrap().push(found.is_some());
                }
            }).unwrap();
        }
    });
    let o = out.into_inner().unwrap();
    println!("{} of {} found", o.iter().filter(|x| **x).count(), o.len());
}
