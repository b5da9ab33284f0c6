//! Guest programs as data: a list of items that assemble to RV32IM words.
//! Every program terminates: jumps go forward, loops are counted.
use std::collections::BTreeMap;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    /// R-type: index into ROPS, rd, rs1, rs2
    R(u8, u8, u8, u8),
    /// I-type ALU: index into IOPS, rd, rs1, imm12 (shift amounts are masked)
    I(u8, u8, u8, u16),
    Lui(u8, u32),
    Auipc(u8, u32),
    /// rd = constant (lui+addi)
    Set(u8, u32),
    /// load: kind 0..5, rd, base register, base address, offset
    Load(u8, u8, u8, u32, i16),
    /// store: kind 0..3, source, base register, base address, offset
    Store(u8, u8, u8, u32, i16),
    /// conditional forward branch: kind 0..6, rs1, rs2, items to skip
    Br(u8, u8, u8, u8),
    /// jal forward
    Jal(u8, u8),
    /// jalr forward through register: link, base, skip, odd
    Jalr(u8, u8, u8, bool),
    /// counted loop over straight-line items
    Loop(u8, Vec<Item>),
    /// environment call: id, a1, a2, a3
    Ecall(u32, u32, u32, u32),
    /// fence / csr / mret / ebreak: index and don't-care bits
    Nop(u8, u32),
    /// any word at all
    Raw(u32),
    /// backward branch executed a bounded number of times around a body
    Pad,
}

pub const ROPS: [(u32, u32); 18] = [
    (0, 0), (0x20, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0x20, 5), (0, 6), (0, 7),
    (1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7),
];
pub const IOPS: [(u32, u32); 9] = [(0, 0), (0, 2), (0, 3), (0, 4), (0, 6), (0, 7), (0, 1), (0, 5), (0x20, 5)];
const BR: [u32; 6] = [0, 1, 4, 5, 6, 7];
const LD: [u32; 5] = [0, 1, 2, 4, 5];
/// loop counter register; generated items do not write it inside a loop body
pub const CNT: u8 = 31;

fn r(f7: u32, f3: u32, rd: u8, a: u8, b: u8) -> u32 {
    f7 << 25 | u32::from(b) << 20 | u32::from(a) << 15 | f3 << 12 | u32::from(rd) << 7 | 0x33
}
fn i(op: u32, f3: u32, rd: u8, a: u8, imm: u32) -> u32 {
    (imm & 0xfff) << 20 | u32::from(a) << 15 | f3 << 12 | u32::from(rd) << 7 | op
}
fn s(f3: u32, base: u8, src: u8, imm: u32) -> u32 {
    (imm >> 5 & 0x7f) << 25 | u32::from(src) << 20 | u32::from(base) << 15 | f3 << 12 | (imm & 31) << 7 | 0x23
}
fn b(f3: u32, a: u8, c: u8, off: u32) -> u32 {
    (off >> 12 & 1) << 31 | (off >> 5 & 0x3f) << 25 | u32::from(c) << 20 | u32::from(a) << 15 | f3 << 12
        | (off >> 1 & 0xf) << 8 | (off >> 11 & 1) << 7 | 0x63
}
fn j(rd: u8, off: u32) -> u32 {
    (off >> 20 & 1) << 31 | (off >> 1 & 0x3ff) << 21 | (off >> 11 & 1) << 20 | (off >> 12 & 0xff) << 12 | u32::from(rd) << 7 | 0x6f
}
fn lui(rd: u8, v: u32) -> u32 { (v & 0xffff_f000) | u32::from(rd) << 7 | 0x37 }
fn set(out: &mut Vec<u32>, rd: u8, v: u32) {
    let hi = v.wrapping_add(0x800) & 0xffff_f000;
    out.push(lui(rd, hi));
    out.push(i(0x13, 0, rd, rd, v.wrapping_sub(hi)));
}

fn straight(it: &Item, out: &mut Vec<u32>) {
    match *it {
        Item::R(k, rd, x, y) => { let (f7, f3) = ROPS[k as usize % 18]; out.push(r(f7, f3, rd, x, y)) }
        Item::I(k, rd, x, imm) => {
            let k = k as usize % 9;
            let (f7, f3) = IOPS[k];
            let imm = if k >= 6 { f7 << 5 | u32::from(imm) & 31 } else { u32::from(imm) };
            out.push(i(0x13, f3, rd, x, imm));
        }
        Item::Lui(rd, v) => out.push(lui(rd, v)),
        Item::Auipc(rd, v) => out.push((v & 0xffff_f000) | u32::from(rd) << 7 | 0x17),
        Item::Set(rd, v) => set(out, rd, v),
        Item::Load(k, rd, base, addr, off) => {
            set(out, base, addr);
            out.push(i(0x03, LD[k as usize % 5], rd, base, off as u32));
        }
        Item::Store(k, src, base, addr, off) => {
            set(out, base, addr);
            out.push(s(u32::from(k % 3), base, src, off as u32));
        }
        Item::Ecall(id, a1, a2, a3) => {
            set(out, 10, id);
            set(out, 11, a1);
            set(out, 12, a2);
            set(out, 13, a3);
            out.push(0x73);
        }
        Item::Nop(k, bits) => out.push(match k % 7 {
            0 => (bits & 0xffff_ff80) | 0x0f,
            1 => 0x0010_0073,
            2 => 0x3020_0073,
            3 => (bits & 0xbfff_8f80) | 1 << 12 | 0x73,
            4 => (bits & 0xffff_8f80) | 2 << 12 | 0x73,
            5 => (bits & 0xbfff_8f80) | 5 << 12 | 0x73,
            _ => 0x0000_0013,
        }),
        Item::Raw(w) => out.push(w),
        Item::Pad => out.push(0x0000_0013),
        _ => unreachable!(),
    }
}

fn size(it: &Item) -> u32 {
    match it {
        Item::Br(..) | Item::Jal(..) => 1,
        Item::Jalr(..) => 3,
        Item::Loop(_, body) => 3 + body.iter().map(size).sum::<u32>(),
        Item::Set(..) => 2,
        Item::Load(..) | Item::Store(..) => 3,
        Item::Ecall(..) => 9,
        _ => 1,
    }
}

/// Assembles the items at `base`, ending with the HALT sequence.
pub fn assemble(base: u32, items: &[Item]) -> BTreeMap<u32, u32> {
    let mut at = vec![base];
    for it in items { at.push(at.last().unwrap().wrapping_add(4 * size(it))); }
    let target = |ix: usize, skip: u8| at[(ix + 1 + skip as usize).min(items.len())];
    let mut out: Vec<u32> = vec![];
    for (ix, it) in items.iter().enumerate() {
        let here = at[ix];
        match *it {
            Item::Br(k, x, y, skip) => out.push(b(BR[k as usize % 6], x, y, target(ix, skip).wrapping_sub(here))),
            Item::Jal(rd, skip) => out.push(j(rd, target(ix, skip).wrapping_sub(here))),
            Item::Jalr(rd, bs, skip, odd) => {
                let bs = if bs == 0 { 5 } else { bs };
                let t = target(ix, skip) | u32::from(odd);
                // auipc bs, hi ; addi bs, bs, lo ; jalr rd, 0(bs)
                let d = t.wrapping_sub(here);
                let hi = d.wrapping_add(0x800) & 0xffff_f000;
                out.push(hi | u32::from(bs) << 7 | 0x17);
                out.push(i(0x13, 0, bs, bs, d.wrapping_sub(hi)));
                out.push(i(0x67, 0, rd, bs, 0));
            }
            Item::Loop(n, ref body) => {
                out.push(i(0x13, 0, CNT, 0, u32::from(n % 6 + 1)));
                let mut inner = vec![];
                for x in body { straight(x, &mut inner); }
                let back = 4 * (inner.len() as u32 + 1);
                out.extend(inner);
                out.push(i(0x13, 0, CNT, CNT, u32::MAX));
                out.push(b(1, CNT, 0, 0u32.wrapping_sub(back)));
            }
            _ => straight(it, &mut out),
        }
        debug_assert_eq!(base.wrapping_add(4 * out.len() as u32), at[ix + 1]);
    }
    out.push(i(0x13, 0, 10, 0, 0));
    out.push(0x73);
    out.into_iter().enumerate().map(|(k, w)| (base.wrapping_add(4 * k as u32), w)).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    pub base: u32,
    pub items: Vec<Item>,
    pub regs: Vec<u32>,
    pub rw: Vec<(u32, u8)>,
    pub ro: Vec<(u32, u8)>,
    /// private, public, call, event
    pub tapes: Vec<Vec<u8>>,
    pub commits: (u8, u8, u8),
}

pub fn val() -> impl Strategy<Value = u32> {
    prop_oneof![
        4 => any::<u32>(),
        3 => prop::sample::select(vec![0u32, 1, 2, 3, 4, 7, 8, 31, 32, 33, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000,
            0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff, 0xffff_8000, 0xffff_ff80, 0x5555_5555, 0xaaaa_aaaa]),
        2 => (0u32..32, any::<bool>()).prop_map(|(k, n)| if n { 0u32.wrapping_sub(1 << k) } else { (1u32 << k).wrapping_sub(1) }),
        1 => 0u32..64,
    ]
}
pub fn reg() -> impl Strategy<Value = u8> { prop_oneof![6 => 1u8..8, 2 => 0u8..31, 1 => Just(0u8)] }
/// a handful of regions so that accesses overlap
pub fn addr() -> impl Strategy<Value = u32> {
    prop_oneof![
        6 => (0u32..24).prop_map(|o| 0x4000 + o),
        2 => (0u32..8).prop_map(|o| 0xffff_fffc_u32.wrapping_add(o)),
        2 => (0u32..12).prop_map(|o| 0x5000 + o),
        1 => (0u32..64).prop_map(|o| 0x1000 + o),
        1 => any::<u32>(),
        1 => (0u32..8).prop_map(|o| 0x7fff_fffc + o),
    ]
}
/// Addresses at which stores may land: no read-only bytes.
pub fn rw_addr() -> impl Strategy<Value = u32> {
    prop_oneof![
        6 => (0u32..24).prop_map(|o| 0x4000 + o),
        2 => (0u32..8).prop_map(|o| 0xffff_fffc_u32.wrapping_add(o)),
        1 => (0u32..64).prop_map(|o| 0x1000 + o),
        1 => (0u32..0x4000_0000).prop_map(|o| o + 0x8000_0000),
        1 => (0u32..8).prop_map(|o| 0x7fff_fffc + o),
    ]
}
pub fn alu() -> BoxedStrategy<Item> {
    prop_oneof![
        8 => (0u8..18, reg(), reg(), reg()).prop_map(|(k, a, b, c)| Item::R(k, a, b, c)),
        6 => (0u8..9, reg(), reg(), prop_oneof![Just(0u16), Just(1), Just(0x7ff), Just(0x800), Just(0xfff), 0u16..0x1000]).prop_map(|(k, a, b, c)| Item::I(k, a, b, c)),
        1 => (reg(), val()).prop_map(|(a, v)| Item::Lui(a, v)),
        1 => (reg(), val()).prop_map(|(a, v)| Item::Auipc(a, v)),
        3 => (reg(), val()).prop_map(|(a, v)| Item::Set(a, v)),
        1 => (0u8..7, any::<u32>()).prop_map(|(k, v)| Item::Nop(k, v)),
    ].boxed()
}
pub fn ctl() -> BoxedStrategy<Item> {
    prop_oneof![
        5 => (0u8..6, reg(), reg(), 0u8..4).prop_map(|(k, a, b, c)| Item::Br(k, a, b, c)),
        2 => (reg(), 0u8..4).prop_map(|(a, b)| Item::Jal(a, b)),
        2 => (reg(), reg(), 0u8..4, any::<bool>()).prop_map(|(a, b, c, d)| Item::Jalr(a, b, c, d)),
        1 => (0u8..6, prop::collection::vec(alu(), 1..4)).prop_map(|(n, b)| Item::Loop(n, b)),
    ].boxed()
}
pub fn mem(store_addr: BoxedStrategy<u32>) -> BoxedStrategy<Item> {
    let off = || prop_oneof![3 => -8i16..8, 1 => Just(-2048i16), 1 => Just(2047i16), 1 => -2048i16..2048];
    // The base is what makes base + offset land on the wanted address.
    prop_oneof![
        1 => (0u8..5, reg(), reg(), addr(), off()).prop_map(|(k, rd, bs, a, o)| Item::Load(k, rd, bs.max(1), a.wrapping_sub(o as i32 as u32), o)),
        1 => (0u8..3, reg(), reg(), store_addr, off()).prop_map(|(k, rd, bs, a, o)| Item::Store(k, rd, bs.max(1), a.wrapping_sub(o as i32 as u32), o)),
    ].boxed()
}
pub fn ecalls() -> BoxedStrategy<Item> {
    let buf = || prop_oneof![4 => (0u32..96).prop_map(|o| 0x4000 + o), 1 => (0u32..40).prop_map(|o| 0xffff_ffe0_u32.wrapping_add(o))];
    prop_oneof![
        6 => (prop::sample::select(vec![2u32, 4, 5, 6]), buf(), prop_oneof![0u32..12, 0u32..40, Just(u32::MAX), val()], val()).prop_map(|(a, b, c, d)| Item::Ecall(a, b, c, d)),
        3 => (7u32..10, buf(), prop_oneof![Just(32u32), 0u32..40, val()], val()).prop_map(|(a, b, c, d)| Item::Ecall(a, b, c, d)),
        1 => (prop_oneof![11u32..64, 11u32.., Just(u32::MAX)], val(), val(), val()).prop_map(|(a, b, c, d)| Item::Ecall(a, b, c, d)),
        1 => (buf(), 0u32..12, val()).prop_map(|(a, n, x)| Item::Ecall(10, a, n, x)),
    ].boxed()
}
pub fn hashes(max_chunks: u32) -> BoxedStrategy<Item> {
    let buf = || prop_oneof![4 => (0u32..96).prop_map(|o| 0x4000 + o), 1 => (0u32..40).prop_map(|o| 0xffff_ffe0_u32.wrapping_add(o))];
    (buf(), 1u32..=max_chunks, buf()).prop_map(|(a, n, o)| Item::Ecall(3, a, 8 * n, o)).boxed()
}
pub fn prog(item: BoxedStrategy<Item>, max: usize, with_ro: bool) -> BoxedStrategy<Prog> {
    let base = prop_oneof![3 => Just(0x1000u32), 1 => Just(0u32), 1 => Just(0x8000_0000u32), 1 => (0u32..0x4000_0000).prop_map(|x| 0x8000_0000 | x * 4 % 0x4000_0000)];
    let ro = if with_ro { prop::collection::vec((0x5000u32..0x500c, any::<u8>()), 0..8).boxed() } else { Just(vec![]).boxed() };
    (
        base,
        prop::collection::vec(item, 1..max),
        prop::collection::vec(val(), 31),
        prop::collection::vec((prop_oneof![5 => 0x4000u32..0x4030, 1 => 0xffff_fff8u32..=0xffff_ffff, 1 => 0u32..8, 1 => 0x5000u32..0x500c], any::<u8>()), 0..32),
        ro,
        prop::collection::vec(prop::collection::vec(any::<u8>(), 0..48), 4),
        any::<(u8, u8, u8)>(),
    )
        .prop_map(|(base, items, regs, rw, ro, tapes, commits)| Prog { base, items, regs, rw, ro, tapes, commits })
        .boxed()
}
