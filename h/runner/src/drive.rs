//! Runs one program on the repository's VM and on the model, side by side.
use std::collections::HashMap;

use h_common::{ensure_same, ensure_that, guarded, Fail};
use im::hashmap::HashMap as ImMap;
use mozak_runner::code::Code;
use mozak_runner::elf::{Data, Program};
use mozak_runner::state::{RawTapes, State};
use mozak_runner::vm::{step, ExecutionRecord};
use plonky2::field::goldilocks_field::GoldilocksField as F;

use crate::gen::{assemble, Prog};
use crate::model::{Fault, Machine, Step, Tapes};

pub const LIMIT: usize = 4000;

pub struct Both {
    pub start: Machine,
    pub steps: Vec<(Machine, Step)>,
    pub end: Machine,
    pub fault: Option<Fault>,
    pub real: Result<Result<ExecutionRecord<F>, String>, String>,
    pub program: Program,
}

pub fn commit(b: u8) -> [u8; 32] { std::array::from_fn(|i| b.wrapping_mul(31).wrapping_add(i as u8 * 7)) }

pub fn setup(p: &Prog) -> (Machine, Program, State<F>) {
    let code = assemble(p.base, &p.items);
    let mut img: ImMap<u32, u8> = ImMap::new();
    for (a, w) in &code {
        for (i, b) in w.to_le_bytes().iter().enumerate() { img.insert(a.wrapping_add(i as u32), *b); }
    }
    let program = Program {
        entry_point: p.base,
        ro_memory: Data(p.ro.iter().copied().collect()),
        rw_memory: Data(p.rw.iter().copied().collect()),
        ro_code: Code::from(&img),
    };
    let tapes = Tapes {
        private: p.tapes[0].clone(), public: p.tapes[1].clone(), call: p.tapes[2].clone(), event: p.tapes[3].clone(),
        ev_commit: commit(p.commits.0), cl_commit: commit(p.commits.1), self_id: commit(p.commits.2),
    };
    let state = State::new(program.clone(), RawTapes {
        private_tape: tapes.private.clone(), public_tape: tapes.public.clone(), call_tape: tapes.call.clone(), event_tape: tapes.event.clone(),
        events_commitment_tape: tapes.ev_commit, cast_list_commitment_tape: tapes.cl_commit, self_prog_id_tape: tapes.self_id,
    });
    let state = p.regs.iter().enumerate().fold(state, |s, (k, v)| s.set_register_value(k as u8 + 1, *v));
    // ro takes precedence
    let ro: HashMap<u32, u8> = p.ro.iter().copied().collect();
    let mut mem: HashMap<u32, u8> = p.rw.iter().copied().collect();
    mem.extend(ro.iter().map(|(a, b)| (*a, *b)));
    let mut x = [0; 32];
    for (k, v) in p.regs.iter().enumerate() { x[k + 1] = *v; }
    let m = Machine { pc: p.base, x, mem, ro: ro.keys().copied().collect(), code, tapes, idx: [0; 4], halted: false };
    (m, program, state)
}

pub fn run(p: &Prog) -> Option<Both> {
    let (start, program, state) = setup(p);
    let mut m = start.clone();
    let mut steps = vec![];
    let mut fault = None;
    while !m.halted {
        if steps.len() >= LIMIT { return None; }
        // mem is cloned only lazily by the caller's needs: keep registers, drop memory
        let before = Machine { mem: HashMap::new(), ro: Default::default(), code: Default::default(), tapes: Tapes::default(), ..m };
        match m.step() {
            Ok(s) => steps.push((before, s)),
            Err(f) => { fault = Some(f); break; }
        }
    }
    let real = guarded(|| step(&program, state).map_err(|e| e.to_string()));
    Some(Both { start, steps, end: m, fault, real, program })
}

/// The two agree on how the run ends; returns the record of a halting run.
pub fn ending(b: &Both) -> Result<Option<&ExecutionRecord<F>>, Fail> {
    match (&b.fault, &b.real) {
        (None, Ok(Ok(r))) => Ok(Some(r)),
        (None, Ok(Err(e))) => Err(format!("the program is valid and halts after {} steps, but the VM returned an error: {e}", b.steps.len()).into()),
        (None, Err(p)) => Err(format!("the program is valid and halts after {} steps, but the VM panicked: {p}", b.steps.len()).into()),
        (Some(f), Ok(Ok(_))) => Err(format!("the program must stop with {f:?} at step {}, but the VM completed", b.steps.len()).into()),
        (Some(f @ (Fault::NoInstruction | Fault::Unknown)), Err(p)) => Err(format!("{f:?} must be reported as an error, but the VM panicked: {p}").into()),
        (Some(_), _) => Ok(None),
    }
}

pub fn registers(b: &Both, r: &ExecutionRecord<F>) -> Result<(), Fail> {
    for (k, (row, (m, s))) in r.executed.iter().zip(&b.steps).enumerate() {
        ensure_same!(row.state.pc, m.pc, "pc before step {k}");
        ensure_that!(row.state.registers == m.x, "registers before step {k} (pc {:#x}): got {:x?}, expected {:x?}", m.pc, row.state.registers, m.x);
        let _ = s;
    }
    ensure_same!(r.executed.len(), b.steps.len(), "number of executed instructions");
    ensure_same!(r.last_state.pc, b.end.pc, "final pc");
    ensure_that!(r.last_state.registers == b.end.x, "final registers: got {:x?}, expected {:x?}", r.last_state.registers, b.end.x);
    Ok(())
}

pub fn memory(b: &Both, r: &ExecutionRecord<F>) -> Result<(), Fail> {
    // every byte written is visible in the next state, with nothing else changed around it
    let mut mem = b.start.mem.clone();
    for (k, (_, s)) in b.steps.iter().enumerate() {
        let st = |k: usize| r.executed.get(k).map_or(&r.last_state, |x| &x.state);
        for (a, v) in &s.touched { mem.insert(*a, *v); }
        let mut watch: Vec<u32> = s.touched.iter().map(|t| t.0).collect();
        if let (Some(lo), Some(hi)) = (watch.first().copied(), watch.last().copied()) {
            watch.extend((1..5).map(|d| lo.wrapping_sub(d)));
            watch.extend((1..5).map(|d| hi.wrapping_add(d)));
        }
        for a in watch {
            let want = mem.get(&a).copied().unwrap_or(0);
            ensure_same!(st(k + 1).load_u8(a), want, "byte at {a:#x} after step {k} (word {:#010x})", s.word);
        }
    }
    for (a, v) in &b.end.mem { ensure_same!(r.last_state.load_u8(*a), *v, "final byte at {a:#x}"); }
    for (a, v) in &r.last_state.memory.data { ensure_same!(*v, b.end.rd8(*a), "final byte at {a:#x}"); }
    for a in &b.end.ro { ensure_that!(r.last_state.memory.is_read_only.contains(a), "{a:#x} lost its read-only protection"); }
    for a in &r.last_state.memory.is_read_only { ensure_that!(b.end.ro.contains(a), "{a:#x} became read-only"); }
    Ok(())
}
