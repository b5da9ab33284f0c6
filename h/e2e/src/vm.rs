//! Runs the guest on the repository's VM.
use std::sync::OnceLock;

use h_common::guarded;
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::Op as Isa;
use mozak_runner::state::{RawTapes, State, StateMemory};
use mozak_sdk::core::reg_abi::{REG_A0, REG_A1, REG_A2};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use script::{Op, Out, REPORT};

use crate::tapes::Tapes;

/// Twice and more what any generated script needs.
const LIMIT: usize = 1_500_000;
pub const ENDLESS: &str = "still running";
pub const REFUSED: &str = "the VM reports ";

fn program() -> &'static Program {
    static P: OnceLock<Program> = OnceLock::new();
    P.get_or_init(|| {
        let path = std::env::var("GUEST_ELF").expect("GUEST_ELF names the guest binary");
        Program::mozak_load_program(&std::fs::read(path).unwrap()).expect("the guest loads")
    })
}

fn memory() -> &'static StateMemory {
    static M: OnceLock<StateMemory> = OnceLock::new();
    M.get_or_init(|| State::<F>::new(program().clone(), RawTapes::default()).memory)
}

pub enum End {
    /// The VM halted with a complete record.
    Halted { steps: usize, exit: u32 },
    /// Anything else: the VM returned an error or panicked.
    Stopped(String),
}
pub struct Ran { pub log: Option<Vec<u8>>, pub end: End }

pub fn run(ops: &[Op], t: &Tapes) -> Ran {
    let mut o = Out::default();
    o.ops(ops);
    let mut private = (o.0.len() as u32).to_le_bytes().to_vec();
    private.extend(o.0);
    private.extend(&t.private);
    let raw = RawTapes {
        private_tape: private, public_tape: t.public.clone(), call_tape: t.call.clone(), event_tape: t.event.clone(),
        events_commitment_tape: t.ev_commit, cast_list_commitment_tape: t.cl_commit, self_prog_id_tape: t.self_id,
    };
    let p = program();
    let mut log = None;
    let end = guarded(|| {
        // laying out memory takes longer than most runs
        let mut st = State::<F>::new(Program { ro_memory: Data::default(), rw_memory: Data::default(), ..p.clone() }, raw);
        st.memory = memory().clone();
        let mut steps = 0;
        while !st.has_halted() {
            if steps == LIMIT { return End::Stopped(format!("{ENDLESS} after {LIMIT} steps")) }
            // a copy of the state makes its stores slow, so only where it may be needed
            let before = (st.get_register_value(REG_A0) == REPORT && log.is_none()).then(|| st.clone());
            match st.execute_instruction(p) {
                Ok((_, i, next)) => {
                    if let (Isa::ECALL, Some(before)) = (i.op, before) {
                        let (at, n) = (before.get_register_value(REG_A1), before.get_register_value(REG_A2));
                        log = Some((0..n).map(|i| before.load_u8(at.wrapping_add(i))).collect());
                    }
                    st = next;
                }
                Err(e) => return End::Stopped(format!("{REFUSED}{e}")),
            }
            steps += 1;
        }
        End::Halted { steps, exit: st.get_register_value(REG_A1) }
    }).unwrap_or_else(End::Stopped);
    Ran { log, end }
}
