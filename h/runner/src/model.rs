//! An independent RV32IM + mozak-ecall machine, written from the RISC-V
//! unprivileged specification and the repository's documented deviations
//! (CSRRW/CSRRS/CSRRWI, MRET, EBREAK, FENCE are no-ops; code is immutable; the
//! whole 4 GiB address space is readable and defaults to zero; read-only bytes
//! reject stores). It decodes raw instruction words itself.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use plonky2::hash::poseidon2::Poseidon2Hash;
use plonky2::plonk::config::{GenericHashOut, Hasher};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    NoInstruction,
    Unknown,
    ReadOnlyStore,
    VmPanic,
    BadHashLen,
}

#[derive(Clone, Debug, Default)]
pub struct Tapes {
    pub private: Vec<u8>,
    pub public: Vec<u8>,
    pub call: Vec<u8>,
    pub event: Vec<u8>,
    pub ev_commit: [u8; 32],
    pub cl_commit: [u8; 32],
    pub self_id: [u8; 32],
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Access { None, Load(u32, u32), Store(u32, u32) }

#[derive(Clone, Debug)]
pub struct HashUse { pub addr: u32, pub len: u32, pub out: u32, pub input: Vec<u8>, pub digest: Vec<u8> }

/// What one step did.
#[derive(Clone, Debug)]
pub struct Step {
    pub pc: u32,
    pub word: u32,
    pub next_pc: u32,
    /// (register, value) written, x0 included as None
    pub wrote: Option<(u8, u32)>,
    pub access: Access,
    /// value read/written before sign extension
    pub raw: u32,
    pub touched: Vec<(u32, u8)>,
    pub tape: Option<(u32, u32, Vec<u8>)>,
    pub hash: Option<HashUse>,
    pub halt: bool,
    pub ecall: Option<u32>,
    pub taken: Option<bool>,
    /// operands as the ISA names them
    pub rs1: u32,
    pub rs2: u32,
}

#[derive(Clone, Debug)]
pub struct Machine {
    pub pc: u32,
    pub x: [u32; 32],
    pub mem: HashMap<u32, u8>,
    pub ro: BTreeSet<u32>,
    pub code: BTreeMap<u32, u32>,
    pub tapes: Tapes,
    pub idx: [usize; 4],
    pub halted: bool,
}

fn sext(v: u32, bits: u32) -> u32 { (((v << (32 - bits)) as i32) >> (32 - bits)) as u32 }

pub fn hash_bytes(bytes: &[u8]) -> Vec<u8> {
    let f: Vec<F> = bytes.iter().map(|b| F::from_canonical_u8(*b)).collect();
    Poseidon2Hash::hash_no_pad(&f).to_bytes()
}

impl Machine {
    pub fn rd8(&self, a: u32) -> u8 { self.mem.get(&a).copied().unwrap_or(0) }
    fn rdn(&self, a: u32, n: u32) -> u32 {
        (0..n).fold(0, |v, i| v | u32::from(self.rd8(a.wrapping_add(i))) << (8 * i))
    }
    fn wr8(&mut self, a: u32, b: u8, t: &mut Vec<(u32, u8)>) -> Result<(), Fault> {
        if self.ro.contains(&a) { return Err(Fault::ReadOnlyStore); }
        self.mem.insert(a, b);
        t.push((a, b));
        Ok(())
    }
    fn set(&mut self, r: u32, v: u32, s: &mut Step) {
        if r != 0 {
            self.x[r as usize] = v;
            s.wrote = Some((r as u8, v));
        }
    }

    pub fn step(&mut self) -> Result<Step, Fault> {
        let pc = self.pc;
        let w = *self.code.get(&pc).ok_or(Fault::NoInstruction)?;
        let (op, rd, f3, r1, r2, f7) = (w & 0x7f, w >> 7 & 31, w >> 12 & 7, w >> 15 & 31, w >> 20 & 31, w >> 25);
        let (a, b) = (self.x[r1 as usize], self.x[r2 as usize]);
        let iimm = sext(w >> 20, 12);
        let simm = sext((w >> 25) << 5 | rd, 12);
        let bimm = sext((w >> 31) << 12 | (w >> 7 & 1) << 11 | (w >> 25 & 0x3f) << 5 | (w >> 8 & 0xf) << 1, 13);
        let jimm = sext((w >> 31) << 20 | (w >> 12 & 0xff) << 12 | (w >> 20 & 1) << 11 | (w >> 21 & 0x3ff) << 1, 21);
        let mut s = Step { pc, word: w, next_pc: 0, wrote: None, access: Access::None, raw: 0, touched: vec![],
            tape: None, hash: None, halt: false, ecall: None, taken: None, rs1: a, rs2: b };
        let mut next = pc.wrapping_add(4);
        match op {
            0x33 => {
                let v = match (f7, f3) {
                    (0x00, 0) => a.wrapping_add(b),
                    (0x20, 0) => a.wrapping_sub(b),
                    (0x00, 1) => a << (b % 32),
                    (0x00, 2) => u32::from((a as i32) < b as i32),
                    (0x00, 3) => u32::from(a < b),
                    (0x00, 4) => a ^ b,
                    (0x00, 5) => a >> (b % 32),
                    (0x20, 5) => ((a as i32) >> (b % 32)) as u32,
                    (0x00, 6) => a | b,
                    (0x00, 7) => a & b,
                    (0x01, 0) => (u64::from(a) * u64::from(b)) as u32,
                    (0x01, 1) => ((i128::from(a as i32) * i128::from(b as i32)) >> 32) as u32,
                    (0x01, 2) => ((i128::from(a as i32) * i128::from(b)) >> 32) as u32,
                    (0x01, 3) => ((u128::from(a) * u128::from(b)) >> 32) as u32,
                    (0x01, 4) => if b == 0 { u32::MAX } else { (i64::from(a as i32) / i64::from(b as i32)) as u32 },
                    (0x01, 5) => if b == 0 { u32::MAX } else { a / b },
                    (0x01, 6) => if b == 0 { a } else { (i64::from(a as i32) % i64::from(b as i32)) as u32 },
                    (0x01, 7) => if b == 0 { a } else { a % b },
                    _ => return Err(Fault::Unknown),
                };
                self.set(rd, v, &mut s);
            }
            0x13 => {
                let v = match f3 {
                    0 => a.wrapping_add(iimm),
                    2 => u32::from((a as i32) < iimm as i32),
                    3 => u32::from(a < iimm),
                    4 => a ^ iimm,
                    6 => a | iimm,
                    7 => a & iimm,
                    1 if f7 == 0 => a << r2,
                    5 if f7 == 0 => a >> r2,
                    5 if f7 == 0x20 => ((a as i32) >> r2) as u32,
                    _ => return Err(Fault::Unknown),
                };
                self.set(rd, v, &mut s);
            }
            0x03 => {
                let n = match f3 { 0 | 4 => 1, 1 | 5 => 2, 2 => 4, _ => return Err(Fault::Unknown) };
                let addr = a.wrapping_add(iimm);
                let raw = self.rdn(addr, n);
                s.access = Access::Load(addr, n);
                s.raw = raw;
                let v = match f3 { 0 => sext(raw, 8), 1 => sext(raw, 16), _ => raw };
                self.set(rd, v, &mut s);
            }
            0x23 => {
                let n = match f3 { 0 => 1, 1 => 2, 2 => 4, _ => return Err(Fault::Unknown) };
                let addr = a.wrapping_add(simm);
                s.access = Access::Store(addr, n);
                s.raw = if n == 4 { b } else { b & ((1 << (8 * n)) - 1) };
                let mut t = vec![];
                for i in 0..n { self.wr8(addr.wrapping_add(i), (b >> (8 * i)) as u8, &mut t)?; }
                s.touched = t;
            }
            0x63 => {
                let t = match f3 {
                    0 => a == b,
                    1 => a != b,
                    4 => (a as i32) < b as i32,
                    5 => (a as i32) >= b as i32,
                    6 => a < b,
                    7 => a >= b,
                    _ => return Err(Fault::Unknown),
                };
                s.taken = Some(t);
                if t { next = pc.wrapping_add(bimm); }
            }
            0x37 => self.set(rd, w & 0xffff_f000, &mut s),
            0x17 => self.set(rd, pc.wrapping_add(w & 0xffff_f000), &mut s),
            0x6f => {
                self.set(rd, pc.wrapping_add(4), &mut s);
                next = pc.wrapping_add(jimm);
            }
            0x67 => {
                if f3 != 0 { return Err(Fault::Unknown); }
                self.set(rd, pc.wrapping_add(4), &mut s);
                next = a.wrapping_add(iimm) & !1;
            }
            0x0f => {}
            0x73 => match (f3, w >> 20) {
                // The repository decodes only by funct3/funct12; rd and rs1 are ignored.
                (0, 0) => return self.ecall(s),
                // writes to the read-only CSRs (0xC00 and up) are illegal, `unimp` is one
                (1 | 5, 0xc00..) => return Err(Fault::Unknown),
                (0, 1) | (0, 0x302) | (1 | 2 | 5, _) => {}
                _ => return Err(Fault::Unknown),
            },
            _ => return Err(Fault::Unknown),
        }
        self.pc = next;
        s.next_pc = next;
        Ok(s)
    }

    fn ecall(&mut self, mut s: Step) -> Result<Step, Fault> {
        let (a0, a1, a2, a3) = (self.x[10], self.x[11], self.x[12], self.x[13]);
        s.ecall = Some(a0);
        match a0 {
            0 => {
                self.halted = true;
                s.halt = true;
                s.next_pc = self.pc;
                return Ok(s);
            }
            1 => return Err(Fault::VmPanic),
            3 => {
                if a2 == 0 || a2 % 8 != 0 { return Err(Fault::BadHashLen); }
                let input: Vec<u8> = (0..a2).map(|i| self.rd8(a1.wrapping_add(i))).collect();
                let digest = hash_bytes(&input);
                let mut t = vec![];
                for (i, b) in digest.iter().enumerate() { self.wr8(a3.wrapping_add(i as u32), *b, &mut t)?; }
                s.touched = t;
                s.hash = Some(HashUse { addr: a1, len: a2, out: a3, input, digest });
            }
            2 | 4..=9 => {
                let data: Vec<u8> = {
                    let n = a2 as usize;
                    let mut seq = |k: usize, d: &[u8]| {
                        let take = n.min(d.len() - self.idx[k]);
                        let r = d[self.idx[k]..self.idx[k] + take].to_vec();
                        self.idx[k] += take;
                        r
                    };
                    match a0 {
                        2 => seq(0, &self.tapes.private),
                        4 => seq(1, &self.tapes.public),
                        5 => seq(2, &self.tapes.call),
                        6 => seq(3, &self.tapes.event),
                        7 => self.tapes.ev_commit[..n.min(32)].to_vec(),
                        8 => self.tapes.cl_commit[..n.min(32)].to_vec(),
                        _ => self.tapes.self_id[..n.min(32)].to_vec(),
                    }
                };
                let mut t = vec![];
                for (i, b) in data.iter().enumerate() { self.wr8(a1.wrapping_add(i as u32), *b, &mut t)?; }
                s.touched = t;
                s.tape = Some((a0, a1, data));
            }
            _ => {}
        }
        self.pc = self.pc.wrapping_add(4);
        s.next_pc = self.pc;
        Ok(s)
    }
}
