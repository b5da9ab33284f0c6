//! C01: decoding.
use h_common::{Check, Fail, Obs, Verdict};
use mozak_runner::decode::decode_instruction;
use mozak_runner::instruction::{Args, Instruction, Op};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Case { pc: u32, word: u32 }

fn sext(v: u32, bits: u32) -> u32 { (((v << (32 - bits)) as i32) >> (32 - bits)) as u32 }
fn bits(w: u32, hi: u32, lo: u32) -> u32 { (w >> lo) & ((1u64 << (hi - lo + 1)) - 1) as u32 }

/// The instruction the repository documents for `word`: RISC-V's meaning, with
/// jumps and branches absolute, loads/stores addressing through rs2, SLLI as a
/// multiplication and SRLI as a division by a power of two, and x0-only no-ops.
fn expected(pc: u32, w: u32) -> Option<Instruction> {
    let rd = bits(w, 11, 7) as u8;
    let rs1 = bits(w, 19, 15) as u8;
    let rs2 = bits(w, 24, 20) as u8;
    let f3 = bits(w, 14, 12);
    let f7 = bits(w, 31, 25);
    let i_imm = sext(bits(w, 31, 20), 12);
    let s_imm = sext(bits(w, 31, 25) << 5 | bits(w, 11, 7), 12);
    let b_imm = sext(bits(w, 31, 31) << 12 | bits(w, 7, 7) << 11 | bits(w, 30, 25) << 5 | bits(w, 11, 8) << 1, 13);
    let u_imm = w & 0xffff_f000;
    let j_imm = sext(bits(w, 31, 31) << 20 | bits(w, 19, 12) << 12 | bits(w, 20, 20) << 11 | bits(w, 30, 21) << 1, 21);
    let mk = |op, rd, rs1, rs2, imm| Some(Instruction { op, args: Args { rd, rs1, rs2, imm } });
    let nop = mk(Op::ADD, 0, 0, 0, 0);
    match bits(w, 6, 0) {
        0b0110111 => mk(Op::ADD, rd, 0, 0, u_imm),
        0b0010111 => mk(Op::ADD, rd, 0, 0, pc.wrapping_add(u_imm)),
        0b1101111 => mk(Op::JALR, rd, 0, 0, pc.wrapping_add(j_imm)),
        0b1100111 if f3 == 0 => mk(Op::JALR, rd, rs1, 0, i_imm),
        0b1100011 => {
            let op = match f3 { 0 => Op::BEQ, 1 => Op::BNE, 4 => Op::BLT, 5 => Op::BGE, 6 => Op::BLTU, 7 => Op::BGEU, _ => return None };
            mk(op, 0, rs1, rs2, pc.wrapping_add(b_imm))
        }
        0b0000011 => {
            let op = match f3 { 0 => Op::LB, 1 => Op::LH, 2 => Op::LW, 4 => Op::LBU, 5 => Op::LHU, _ => return None };
            mk(op, rd, 0, rs1, i_imm)
        }
        0b0100011 => {
            let op = match f3 { 0 => Op::SB, 1 => Op::SH, 2 => Op::SW, _ => return None };
            mk(op, 0, rs2, rs1, s_imm)
        }
        0b0010011 => match f3 {
            0 => mk(Op::ADD, rd, rs1, 0, i_imm),
            2 => mk(Op::SLT, rd, rs1, 0, i_imm),
            3 => mk(Op::SLTU, rd, rs1, 0, i_imm),
            4 => mk(Op::XOR, rd, rs1, 0, i_imm),
            6 => mk(Op::OR, rd, rs1, 0, i_imm),
            7 => mk(Op::AND, rd, rs1, 0, i_imm),
            1 if f7 == 0 => mk(Op::MUL, rd, rs1, 0, 1 << rs2),
            5 if f7 == 0 => mk(Op::DIVU, rd, rs1, 0, 1 << rs2),
            5 if f7 == 0x20 => mk(Op::SRA, rd, rs1, 0, rs2.into()),
            _ => None,
        },
        0b0110011 => {
            let op = match (f7, f3) {
                (0, 0) => Op::ADD, (0x20, 0) => Op::SUB, (0, 1) => Op::SLL, (0, 2) => Op::SLT, (0, 3) => Op::SLTU,
                (0, 4) => Op::XOR, (0, 5) => Op::SRL, (0x20, 5) => Op::SRA, (0, 6) => Op::OR, (0, 7) => Op::AND,
                (1, 0) => Op::MUL, (1, 1) => Op::MULH, (1, 2) => Op::MULHSU, (1, 3) => Op::MULHU,
                (1, 4) => Op::DIV, (1, 5) => Op::DIVU, (1, 6) => Op::REM, (1, 7) => Op::REMU,
                _ => return None,
            };
            mk(op, rd, rs1, rs2, 0)
        }
        0b0001111 => nop,
        0b1110011 => match (f3, bits(w, 31, 20)) {
            (0, 0) => mk(Op::ECALL, 0, 10, 11, 0),
            (1 | 5, 0xc00..) => None, // read-only CSRs
            (0, 1 | 0x302) | (1 | 2 | 5, _) => nop,
            _ => None,
        },
        _ => None,
    }
}

fn oracle(c: &Case) -> Verdict {
    let got = decode_instruction(c.pc, c.word);
    match (expected(c.pc, c.word), got) {
        (Some(e), Ok(g)) if e == g => {}
        (None, Err(e)) if e.pc == c.pc && e.instruction == c.word => {}
        (None, Err(e)) => return Err(Fail::from(format!("rejection of {:#010x} at {:#x} names {:#010x} at {:#x}", c.word, c.pc, e.instruction, e.pc))),
        (e, g) => return Err(Fail::from(format!("word {:#010x} at pc {:#x}: got {g:?}, expected {e:?}", c.word, c.pc))),
    }
    Ok(Obs::new(c.word & 3 == 3)
        .class(expected(c.pc, c.word).is_some(), "accepted")
        .class(expected(c.pc, c.word).is_none() && c.word & 3 == 3, "rejected 32-bit encoding"))
}

const OPCODES: [u32; 11] = [0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x0f, 0x73];

fn word() -> impl Strategy<Value = u32> {
    let f7 = prop_oneof![4 => prop::sample::select(vec![0u32, 1, 0x20, 0x18, 0x21, 0x40, 0x7f]), 2 => 0u32..128];
    let sys = prop::sample::select(vec![0u32, 1, 2, 0x302, 0x102, 0x105, 0x002, 0x7b2, 0x100, 0x301, 0x303]);
    prop_oneof![
        10 => (prop::sample::select(OPCODES.to_vec()), any::<u32>(), f7).prop_map(|(o, w, f)| o | w & 0x01ff_ff80 | f << 25),
        4 => (prop::sample::select(OPCODES.to_vec()), any::<u32>()).prop_map(|(o, w)| o | w & !0x7f),
        2 => (sys, 0u32..8, any::<u32>()).prop_map(|(f12, f3, w)| f12 << 20 | f3 << 12 | w & 0xf8f80 | 0x73),
        2 => (prop::sample::select(OPCODES.to_vec()), 0usize..32, any::<bool>()).prop_map(|(o, k, n)| o | ((if n { !(1u32 << k) } else { 1u32 << k }) & !0x7f)),
        3 => any::<u32>(),
    ]
}
fn pc() -> impl Strategy<Value = u32> {
    prop_oneof![
        3 => any::<u32>(),
        1 => (any::<u32>()).prop_map(|x| x & !3),
        1 => prop::sample::select(vec![0u32, 4, 0xffe, 0x1000, 0xfff0_0000, 0xffff_fffc, 0x8000_0000, 0x7fff_fffc, 0x000f_fffe]),
    ]
}

/// One chunk of the whole instruction space: every word whose top 12 bits are `hi`.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chunk { pc: u32, hi: u32, stride: u32 }
fn sweep(c: &Chunk) -> Verdict {
    let mut w = u64::from(c.hi) << 20 | u64::from(c.hi.wrapping_mul(7) % c.stride);
    let end = (u64::from(c.hi) + 1) << 20;
    while w < end {
        oracle(&Case { pc: c.pc, word: w as u32 })?;
        w += u64::from(c.stride);
    }
    Ok(Obs::new(true))
}

pub fn check() -> ! {
    let mut c = Check::new("C01");
    let n = c.cases(1_500_000, 8);
    c.run("words", "(pc, word) with the fields of a word drawn around the encodings that exist and around those that do not; non-trivial = a 32-bit encoding (low bits 11)", n,
        || (pc(), word()).prop_map(|(pc, word)| Case { pc, word }), oracle);
    // The space of words, swept: completely when thorough, every 13th word otherwise.
    let (stride, pcs) = if c.thorough() { (1, vec![0u32, 0x8765_4320]) } else { (13, vec![0x8765_4320]) };
    let list = pcs.into_iter().flat_map(|pc| (0..4096u32).map(move |hi| Chunk { pc, hi, stride })).collect();
    c.run_list("sweep", "each case is the 2^20 words sharing their top 12 bits, at the given stride (1 = all of them)", list, sweep);
    c.assume("the expected decoding is the RISC-V unprivileged ISA's, in the canonical operand form documented in runner/src/decode.rs");
    c.finish()
}
