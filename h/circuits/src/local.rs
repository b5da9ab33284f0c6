//! One table at a time. A table on its own, with the tables it asks granted what they
//! promise, has to keep its own promise: a row of the CPU only does what the VM does in one
//! step, the memory table only answers as memory would, and so on. The search for a table
//! that does not is much shorter than the one for a whole proof.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

use h_common::{guarded, Fail, Obs, Verdict};
use mozak_circuits::cpu_skeleton::columns::CpuSkeletonCtl;
use mozak_circuits::memoryinit::columns::MemoryInitCtl;
use mozak_circuits::stark::mozak_stark::TableKind as K;
use mozak_circuits::storage_device::columns::StorageDeviceCtl;
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::{CommitmentTape, State, StorageDeviceTape};
use mozak_runner::vm::{ExecutionRecord, Row};
use plonky2::field::types::{Field, Field64, PrimeField64};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::c17::{follow, go, lying, mem_ix, reg_ix, Case, Ctx, Lie, BASE, TAPES};
use crate::drive;
use crate::forge::{Forge, Role};
use crate::gen::{self, Item, Prog};
use crate::world::{kind, World, F};

/// The tables looked at, and how often.
pub const LOCALS: [(u32, K); 20] = [
    (40, K::Cpu), (2, K::Add), (2, K::BltTaken), (8, K::Memory), (8, K::Register), (4, K::CpuSkeleton), (2, K::HalfWordMemory), (3, K::FullWordMemory),
    (2, K::StorageDevicePrivate), (2, K::StorageDevicePublic), (2, K::CallTape), (2, K::EventTape), (2, K::EventsCommitmentTape), (2, K::CastListCommitmentTape),
    (2, K::SelfProgIdTape), (4, K::Poseidon2Sponge), (3, K::TapeCommitments), (1, K::MemoryZeroInit), (1, K::RegisterZeroRead), (1, K::RegisterZeroWrite),
];
const CPUS: [usize; 3] = [K::Cpu as usize, K::Add as usize, K::BltTaken as usize];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Twist {
    /// a false cell
    Cell { c: u16, how: u8, x: u64 },
    /// a false part of a tuple, with the rest of the tuple as it is or not
    Part { side: u16, c: u16, how: u8, x: u64, pin: bool },
    /// one flag off, another one on
    Flags { a: u16, b: u16 },
    /// two cells, one higher and the other lower
    Pair { a: u16, b: u16, by: u64, same: bool },
    /// rows swapped, repeated, removed, moved
    Rows { how: u8, a: u16, b: u16, pin: bool },
    /// rows of one address put elsewhere, and a false answer
    Twice { a: u16, b: u16, how: u8, c: u16 },
    /// a false step (as in the search for whole proofs)
    Step { at: u16, what: u8, how: u8, x: u32, pin: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Local { pub p: Prog, pub t: u8, pub r: u16, pub far: bool, pub twists: Vec<Twist> }

// ---- cases ---------------------------------------------------------------------------

fn items(t: usize) -> BoxedStrategy<Item> {
    let reg = gen::reg;
    let buf = || prop_oneof![4 => (0u32..40).prop_map(|o| 0x4000 + o), 1 => (0u32..40).prop_map(|o| 0xffff_ffe0_u32.wrapping_add(o))];
    let hash = || (buf(), 1u32..4, buf()).prop_map(|(a, n, o)| Item::Ecall(3, a.min(0u32.wrapping_sub(8 * n)), 8 * n, o.min(0u32.wrapping_sub(32)))).boxed();
    let dev = move |d: usize| (buf(), prop_oneof![0u32..6, 0u32..40], Just(TAPE_IDS[d])).prop_map(|(a, n, id)| Item::Ecall(id, a, if id >= 7 { n.max(32) } else { n }, 0)).boxed();
    let mem = || prop_oneof![
        3 => gen::mem(gen::rw_addr().boxed()),
        3 => (0u8..5, reg(), 1u8..8, 0u32..4).prop_map(|(k, rd, b, a)| Item::Load(k, rd, b, 0x4000 + a, 0)),
        3 => (0u8..3, reg(), 1u8..8, 0u32..4).prop_map(|(k, s, b, a)| Item::Store(k, s, b, 0x4000 + a, 0)),
    ].boxed();
    match kind(t) {
        K::Cpu => prop_oneof![12 => gen::alu(), 6 => (0u8..18, 1u8..8, 1u8..8, 1u8..8).prop_map(|(k, a, b, c)| Item::R(k, a, b, c)), 6 => gen::ctl(), 6 => mem(), 2 => (0usize..7).prop_flat_map(dev), 1 => hash(),
            2 => (1u8..8, 0u32..32).prop_map(|(r, v)| Item::Set(r, v))].boxed(),
        K::Add => gen::alu(),
        K::BltTaken => gen::ctl(),
        K::HalfWordMemory => prop_oneof![(2u8..4, reg(), 1u8..8, gen::addr()).prop_map(|(k, rd, b, a)| Item::Load(k, rd, b, a, 0)), (Just(1u8), reg(), 1u8..8, gen::rw_addr()).prop_map(|(k, s, b, a)| Item::Store(k, s, b, a, 0)), mem()].boxed(),
        K::FullWordMemory => prop_oneof![(Just(4u8), reg(), 1u8..8, gen::addr()).prop_map(|(k, rd, b, a)| Item::Load(k, rd, b, a, 0)), (Just(2u8), reg(), 1u8..8, gen::rw_addr()).prop_map(|(k, s, b, a)| Item::Store(k, s, b, a, 0)), mem()].boxed(),
        K::Memory | K::MemoryZeroInit => mem(),
        K::Poseidon2Sponge => hash(),
        K::TapeCommitments => prop_oneof![dev(4), dev(5)].boxed(),
        k => match TAPES.iter().position(|x| *x == k) { Some(d) => dev(d), None => prop_oneof![3 => gen::alu(), 1 => gen::ctl()].boxed() },
    }
}
const TAPE_IDS: [u32; 7] = [2, 4, 5, 6, 7, 8, 9];
fn twist() -> BoxedStrategy<Twist> {
    let x = || prop_oneof![3 => 0u64..64, 2 => any::<u64>(), 1 => (0u64..4).prop_map(|x| (1 << 32) - 2 + x)];
    prop_oneof![
        8 => (any::<u16>(), 0u8..10, x()).prop_map(|(c, how, x)| Twist::Cell { c, how, x }),
        8 => (any::<u16>(), any::<u16>(), 0u8..10, x(), any::<bool>()).prop_map(|(side, c, how, x, pin)| Twist::Part { side, c, how, x, pin }),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Twist::Flags { a, b }),
        2 => (any::<u16>(), any::<u16>(), prop_oneof![3 => Just(1u64), 1 => (0u32..33).prop_map(|k| 1 << k)], any::<bool>()).prop_map(|(a, b, by, same)| Twist::Pair { a, b, by, same }),
    ].boxed()
}
fn table(t: usize) -> BoxedStrategy<Local> {
    let rows = || (0u8..5, any::<u16>(), any::<u16>(), any::<bool>()).prop_map(|(how, a, b, pin)| Twist::Rows { how, a, b, pin });
    let twice = || (any::<u16>(), any::<u16>(), any::<u8>(), any::<u16>()).prop_map(|(a, b, how, c)| Twist::Twice { a, b, how, c });
    let step = || (any::<u16>(), any::<u8>(), any::<u8>(), prop_oneof![0u32..64, gen::val()], any::<bool>()).prop_map(|(at, what, how, x, pin)| Twist::Step { at, what, how, x, pin });
    let cpu = CPUS.contains(&t);
    let what = match kind(t) {
        _ if cpu => prop_oneof![5 => prop::collection::vec(twist(), 1), 1 => prop::collection::vec(twist(), 2), 5 => step().prop_map(|x| vec![x]), 1 => (step(), twist()).prop_map(|x| vec![x.0, x.1])].boxed(),
        K::Memory | K::Register => prop_oneof![3 => prop::collection::vec(twist(), 1..3), 2 => prop::collection::vec(rows(), 1..3), 1 => (rows(), twist()).prop_map(|x| vec![x.0, x.1]), 6 => twice().prop_map(|x| vec![x])].boxed(),
        _ => prop_oneof![4 => prop::collection::vec(twist(), 1..3), 2 => prop::collection::vec(rows(), 1..3), 2 => (rows(), twist()).prop_map(|x| vec![x.0, x.1])].boxed(),
    };
    let max = match kind(t) { K::Cpu => 3, K::Memory | K::Register => 6, _ => 4 };
    // most of what is read is byte values that repeat, so that the memory has few addresses
    (gen::prog(items(t), max, true), any::<u16>(), prop::bool::weighted(0.15), what)
        .prop_map(move |(mut p, r, far, twists)| { p.base = BASE; Local { p: crate::c16::provable(p), t: t as u8, r, far, twists } }).boxed()
}
pub fn locals() -> BoxedStrategy<Local> { proptest::strategy::Union::new_weighted(LOCALS.iter().map(|(w, k)| (*w, table(*k as usize))).collect()).boxed() }
pub fn locals_of(t: usize) -> BoxedStrategy<Local> { table(t) }

// ---- lies ----------------------------------------------------------------------------

fn wrong(f: &Forge, t: usize, r: usize, c: usize, how: u8, x: u64) -> F {
    let w = &f.w.t[t];
    let old = w[r][c];
    let k = F::from_canonical_u64(1 << (x % 33));
    match how % 10 {
        0 => old + F::ONE, 1 => old - F::ONE, 2 => F::ONE - old, 3 => F::ZERO, 4 => old + k, 5 => old - k,
        6 => w[(r + 1 + x as usize) % w.len()][c], 7 => w[r][x as usize % w[r].len()], 8 => F::from_noncanonical_u64(x), _ => k - old,
    }
}
/// The cells a side of a row is made of.
fn cells(f: &Forge, k: usize, j: usize, r: usize) -> Vec<(usize, usize, usize)> {
    let s = &f.rules.ctls[k][j];
    let n = f.w.next(s.table, r);
    s.cols.iter().chain([&s.filter]).flat_map(|x| x.lv.iter().map(|c| (s.table, r, c.0)).chain(x.nv.iter().map(move |c| (s.table, n, c.0)))).collect()
}
/// The sides of a table that matter to others, and are not questions to the helper tables.
fn faces(ctx: &Ctx, t: usize) -> Vec<(usize, usize)> {
    let own = |k: usize, j: usize| ctx.rules.ctls[k][j].table == t && matches!(ctx.roles[k], Role::Balance);
    (0..ctx.rules.ctls.len()).flat_map(|k| (0..ctx.rules.ctls[k].len()).filter(move |j| own(k, *j)).map(move |j| (k, j))).collect()
}

pub fn local(ctx: &Ctx, l: &Local) -> Verdict {
    let none = || Ok(Obs::new(false));
    let t = l.t as usize;
    let step = match l.twists[0] { Twist::Step { at, what, how, x, pin } => Some((at, what, how, x, pin)), _ => None };
    let (program, w, honest) = if let Some((at, what, how, x, _)) = step {
        let c = Case { p: l.p.clone(), lie: Lie::Step { at, what, how, x, loose: 0 } };
        let Some((program, w, ..)) = lying(ctx, &c) else { return none() };
        (program, w, None)
    } else {
        let (_, program, state) = drive::setup(&l.p);
        let mut rows = vec![];
        let Some(last_state) = follow(&program, state, &mut rows) else { return none() };
        let record = ExecutionRecord { executed: rows, last_state };
        if crate::c16::limits(&record).any() { return none(); }
        let Ok(w) = guarded(|| World::generate(&program, &record)) else { return none() };
        let h = w.t[t].clone();
        (program, w, Some(h))
    };
    let mut f = Forge::new(&ctx.rules, &ctx.slps, w, ctx.roles.clone(), ctx.mask.clone());
    f.only(t);
    let faces = faces(ctx, t);
    if f.w.t[t].len() > 256 { return none(); }
    for tw in &l.twists {
        let n = f.w.t[t].len();
        let width = f.w.t[t][0].len();
        let used: Vec<usize> = (0..n).filter(|r| faces.iter().any(|(k, j)| f.w.side(&ctx.rules.ctls[*k][*j], *r).0 != F::ZERO)).collect();
        let at = |x: u16| if l.far || used.is_empty() { x as usize % n } else { used[x as usize % used.len()] };
        let r = at(l.r);
        match *tw {
            Twist::Cell { c, how, x } => {
                let c = c as usize % width;
                let v = wrong(&f, t, r, c, how, x);
                f.w.t[t][r][c] = v;
                f.fixed.insert((t, r, c));
            }
            Twist::Part { side, c, how, x, pin } => {
                let on: Vec<&(usize, usize)> = faces.iter().filter(|(k, j)| f.w.side(&ctx.rules.ctls[*k][*j], r).0 != F::ZERO).collect();
                if on.is_empty() { return none(); }
                let (k, j) = *on[side as usize % on.len()];
                let all = cells(&f, k, j, r);
                if all.is_empty() { return none(); }
                let cell = all[c as usize % all.len()];
                let v = wrong(&f, t, cell.1, cell.2, how, x);
                f.w.t[t][cell.1][cell.2] = v;
                if pin { for (k, j) in faces.iter() { if f.w.side(&ctx.rules.ctls[*k][*j], r).0 != F::ZERO { f.fixed.extend(cells(&f, *k, *j, r)); } } }
                f.fixed.insert(cell);
            }
            Twist::Flags { a, b } => {
                let ones: Vec<usize> = (0..width).filter(|c| f.w.t[t][r][*c] == F::ONE).collect();
                let zeros: Vec<usize> = (0..width).filter(|c| f.w.t[t][r][*c] == F::ZERO).collect();
                if ones.is_empty() || zeros.is_empty() { return none(); }
                let (a, b) = (ones[a as usize % ones.len()], zeros[b as usize % zeros.len()]);
                f.w.t[t][r][a] = F::ZERO;
                f.w.t[t][r][b] = F::ONE;
                f.fixed.extend([(t, r, a), (t, r, b)]);
            }
            Twist::Pair { a, b, by, same } => {
                let (a, b) = (a as usize % width, b as usize % width);
                let by = F::from_canonical_u64(by);
                f.w.t[t][r][a] += by;
                if same { f.w.t[t][r][b] += by } else { f.w.t[t][r][b] -= by }
                f.fixed.extend([(t, r, a), (t, r, b)]);
            }
            Twist::Rows { how, a, b, pin } => {
                let (a, b) = (at(a), at(b));
                let tab = &mut f.w.t[t];
                match how % 5 {
                    0 => tab.swap(a, b),
                    1 => { let row = tab[a].clone(); tab.insert(b, row); tab.pop(); }
                    2 => { tab.remove(a); let e = tab[n - 2].clone(); tab.push(e); }
                    3 => { let row = tab.remove(a); tab.insert(b, row); }
                    _ => { let row = tab[a].clone(); tab[b] = row; }
                }
                if pin { f.fixed.extend((0..width).map(|c| (t, b, c))); }
            }
            Twist::Twice { a, b, how, c } => {
                // an operation (not an init) moves to another place, with or without an init
                let ops: Vec<usize> = used.iter().copied().filter(|r| op_of(ctx, &f.w, t, *r).is_some()).collect();
                if ops.is_empty() { return none(); }
                let a = ops[a as usize % ops.len()];
                let (addr, _) = op_of(ctx, &f.w, t, a).unwrap();
                let init = used.iter().copied().filter(|r| *r < a && op_of(ctx, &f.w, t, *r).is_none() && addr_of(ctx, &f.w, t, *r) == addr).last();
                let to = match how % 4 {
                    // somewhere near
                    0 => (a + n - 4 + b as usize % 8) % n,
                    1 => at(b),
                    // after another operation of the same address
                    _ => { let same: Vec<usize> = ops.iter().copied().filter(|r| op_of(ctx, &f.w, t, *r).unwrap().0 == addr).collect(); same[b as usize % same.len()] }
                };
                let row = f.w.t[t].remove(a);
                f.w.t[t].insert(to, row);
                let mut here = to;
                if how / 4 % 2 == 1 {
                    let Some(i) = init else { return none() };
                    let row = f.w.t[t][i - usize::from(i > to)].clone();
                    f.w.t[t].insert(to, row);
                    f.w.t[t].pop();
                    here = (to + 1) % n;
                }
                // what it was, and what it is about, stays; an answer may change
                let (k, j) = own_face(ctx, t);
                let s = &ctx.rules.ctls[k][j];
                let v = value_col(ctx, t);
                for (i, x) in s.cols.iter().enumerate() { if i != v || how / 8 % 4 == 0 { f.fixed.extend(x.lv.iter().map(|c| (t, here, c.0))); } }
                if how / 32 % 2 == 1 {
                    let d = c as usize % 3;
                    if let Some(cc) = s.cols[v].lv.first() { f.w.t[t][here][cc.0] = [F::ZERO, F::ONE, f.w.t[t][here][cc.0] + F::ONE][d]; }
                }
            }
            Twist::Step { pin, .. } => {
                if pin {
                    for r in 0..n { for (k, j) in &faces { if f.w.side(&ctx.rules.ctls[*k][*j], r).0 != F::ZERO { f.fixed.extend(cells(&f, *k, *j, r)); } } }
                }
            }
        }
    }
    f.scan();
    let first = f.open();
    if first > 60 { return none(); }
    f.depth = 40;
    f.budget = ctx.budget / 2;
    let begun = (f.w.clone(), f.fixed.clone());
    let mut solved = f.propagate();
    if !solved {
        f.w = begun.0;
        f.fixed = begun.1;
        f.scan();
        solved = f.solve(1, 0) || { f.nodes = 0; f.solve(3, 0) };
    }
    {
        let mut al = ctx.alone.lock().unwrap();
        for r in &f.alone { *al.entry(*r).or_default() += 1; }
    }
    let name: &'static str = Box::leak(format!("{:?}", kind(t)).into_boxed_str());
    let o = Obs::new(first > 0).class(true, name).class(solved, "nothing to object to in the end").class(first == 0, "nothing to object to").class(f.nodes > 1, "something was repaired");
    if !solved { return Ok(o); }
    f.scan();
    assert!(f.open() == 0, "the search lost track of an objection");
    match guarded(|| promise(ctx, &program, t, &f.w, honest.as_ref())) {
        Ok(Ok(checked)) => Ok(o.class(checked, "another valid table")),
        Ok(Err(e)) => {
            let mut out = String::new();
            if std::env::var("SHOW").is_ok() {
                for r in 0..f.w.t[t].len() {
                    out += &format!("\n  row {r}: {:?}", f.w.t[t][r].iter().map(|x| x.to_canonical_u64()).collect::<Vec<_>>());
                    if let Some(h) = honest.as_ref().and_then(|h| h.get(r)) { if *h != f.w.t[t][r] { out += &format!("\n    was {:?}", h.iter().map(|x| x.to_canonical_u64()).collect::<Vec<_>>()); } }
                }
            }
            Err(Fail { sig: e.sig, msg: format!("{name} has nothing against it, but {}{out}", e.msg) })
        }
        Err(e) => Err(Fail::from(format!("judging {name}: {e}"))),
    }
}

// ---- promises ------------------------------------------------------------------------

type Tuple = Vec<u64>;
type Bag = BTreeMap<(usize, Tuple), u64>;
fn num(x: F) -> u64 { x.to_canonical_u64() }
/// What some rows of some tables ask others for or offer them.
fn said(ctx: &Ctx, w: &World, tables: &[usize], row: Option<usize>) -> Bag {
    let mut b = Bag::new();
    for k in 0..ctx.rules.ctls.len() {
        if ctx.roles[k] != Role::Balance { continue; }
        for s in ctx.rules.ctls[k].iter().filter(|s| tables.contains(&s.table)) {
            for r in 0..w.t[s.table].len() {
                if row.is_some_and(|x| x != r) { continue; }
                let (f, v) = w.side(s, r);
                if f != F::ZERO { let e = b.entry((k, v)).or_default(); *e = num(F::from_canonical_u64(*e) + f); }
            }
        }
    }
    b.retain(|_, n| *n != 0);
    b
}
/// The lookup in which a table is asked, or asks, about something.
fn ctl(ctx: &Ctx, has: K) -> usize { (0..ctx.rules.ctls.len()).find(|k| ctx.roles[*k] == Role::Balance && ctx.rules.ctls[*k].iter().any(|s| s.table == has as usize)).unwrap() }
struct Names { mem: usize, init: usize, half: usize, full: usize, reg: usize, tape: usize, sponge: usize, perm: usize, bytes: usize, skel: usize, ev: usize, cl: usize }
fn names(ctx: &Ctx) -> Names {
    let both = |a: K, b: K, not: &[usize]| (0..ctx.rules.ctls.len()).find(|k| !not.contains(k) && [a, b].iter().all(|x| ctx.rules.ctls[*k].iter().any(|s| s.table == *x as usize))).unwrap();
    let mem = both(K::Memory, K::Poseidon2OutputBytes, &[]);
    let reg = both(K::Register, K::RegisterInit, &[]);
    Names {
        mem, reg, init: ctl(ctx, K::ElfMemoryInit),
        half: both(K::Cpu, K::HalfWordMemory, &[mem, reg]), full: both(K::Cpu, K::FullWordMemory, &[mem, reg]),
        tape: both(K::Cpu, K::CallTape, &[mem, reg]), sponge: both(K::Cpu, K::Poseidon2Sponge, &[mem, reg]),
        perm: both(K::Poseidon2, K::Poseidon2Sponge, &[]), bytes: both(K::Poseidon2OutputBytes, K::Poseidon2Sponge, &[mem]),
        skel: both(K::Cpu, K::CpuSkeleton, &[]), ev: both(K::EventsCommitmentTape, K::TapeCommitments, &[]), cl: both(K::CastListCommitmentTape, K::TapeCommitments, &[]),
    }
}
/// The side by which the memory and the register table answer.
fn own_face(ctx: &Ctx, t: usize) -> (usize, usize) {
    let n = names(ctx);
    let k = if t == K::Memory as usize { n.mem } else { n.reg };
    (k, ctx.rules.ctls[k].iter().position(|s| s.table == t).unwrap())
}
fn value_col(_: &Ctx, t: usize) -> usize { if t == K::Memory as usize { mem_ix()[4] } else { reg_ix().3 } }
fn addr_of(ctx: &Ctx, w: &World, t: usize, r: usize) -> u64 {
    let (k, j) = own_face(ctx, t);
    let v = w.side(&ctx.rules.ctls[k][j], r).1;
    if t == K::Memory as usize { v[mem_ix()[3]] } else { v[reg_ix().2] }
}
/// The address and clock of a row that is a read or write.
fn op_of(ctx: &Ctx, w: &World, t: usize, r: usize) -> Option<(u64, u64)> {
    if t != K::Memory as usize && t != K::Register as usize { return None; }
    let (k, j) = own_face(ctx, t);
    let (f, v) = w.side(&ctx.rules.ctls[k][j], r);
    if f == F::ZERO { return None; }
    if t == K::Memory as usize { Some((v[mem_ix()[3]], v[mem_ix()[0]])) } else {
        let (clk, op, addr, _) = reg_ix();
        (v[op] != 0).then_some((v[addr], v[clk]))
    }
}

fn fail<T>(m: String) -> Result<T, Fail> { Err(Fail::from(m)) }
const U32: u64 = 1 << 32;
/// A clock that a step may have.
fn clock(x: u64) -> bool { (2..1 << 29).contains(&x) }

/// Does a table that nothing objects to keep its promise? `false`: others would object.
fn promise(ctx: &Ctx, program: &Program, t: usize, w: &World, honest: Option<&Vec<Vec<F>>>) -> Result<bool, Fail> {
    let n = names(ctx);
    let mut any = false;
    match kind(t) {
        K::Cpu | K::Add | K::BltTaken => {
            for r in 0..w.t[t].len() {
                if honest.and_then(|h| h.get(r)) == Some(&w.t[t][r]) { continue; }
                let b = said(ctx, w, &[t], Some(r));
                if b.is_empty() { continue; }
                any |= one_step(ctx, &n, program, &CPUS, b).map_err(|e| Fail { msg: format!("row {r}: {}", e.msg), sig: e.sig })?;
            }
        }
        K::HalfWordMemory | K::FullWordMemory => {
            let (k, bytes) = if t == K::HalfWordMemory as usize { (n.half, 2) } else { (n.full, 4) };
            let [clk, st, ld, addr, val] = mem_ix();
            for r in 0..w.t[t].len() {
                let b = said(ctx, w, &[t], Some(r));
                let mem: Vec<(&Tuple, u64)> = b.iter().filter(|x| x.0 .0 == n.mem).map(|x| (&x.0 .1, *x.1)).collect();
                let off: Vec<(&Tuple, u64)> = b.iter().filter(|x| x.0 .0 == k).map(|x| (&x.0 .1, *x.1)).collect();
                if b.is_empty() { continue; }
                let Some((v, m)) = off.first() else { return fail(format!("row {r} accesses {:?} for nothing", mem[0].0)) };
                if *m != F::ORDER - 1 { return fail(format!("row {r} is there {} times", F::ORDER - m)); }
                if mem.iter().any(|(x, _)| x[addr] >= U32 || x[val] > 255) || v[addr] >= U32 || v[clk] >= U32 { continue; }
                any = true;
                if v[val] >> (8 * bytes) != 0 { return fail(format!("row {r} is {v:?}")); }
                let mut want: Vec<(Tuple, u64)> = (0..bytes).map(|i| { let mut x = vec![0; 5]; x[clk] = v[clk]; x[st] = v[st]; x[ld] = v[ld]; x[addr] = (v[addr] + i) % U32; x[val] = v[val] >> (8 * i) & 255; (x, 1) }).collect();
                want.sort_unstable();
                let got: Vec<(Tuple, u64)> = mem.iter().map(|(x, m)| ((*x).clone(), *m)).collect();
                if got != want { return fail(format!("row {r}: {v:?} becomes {got:?}")); }
            }
        }
        k if TAPES.contains(&k) => {
            let d = TAPES.iter().position(|x| *x == k).unwrap();
            let b = said(ctx, w, &[t], None);
            let [clk, _, _, addr, val] = mem_ix();
            let s: StorageDeviceCtl<usize> = (0..4).collect();
            let reads: Vec<(&Tuple, u64)> = b.iter().filter(|x| x.0 .0 == n.tape).map(|x| (&x.0 .1, *x.1)).collect();
            let mem: Vec<(&Tuple, u64)> = b.iter().filter(|x| x.0 .0 == n.mem).map(|x| (&x.0 .1, *x.1)).collect();
            if reads.iter().any(|x| x.1 != 1 || !clock(x.0[s.clk]) || x.0[s.addr] >= U32) || mem.iter().any(|x| x.0[addr] >= U32 || x.0[val] > 255) { return Ok(false); }
            let clks: BTreeSet<u64> = reads.iter().map(|x| x.0[s.clk]).collect();
            if clks.len() != reads.len() { return Ok(false); }
            let mut want = Bag::new();
            for (v, _) in &reads {
                any = true;
                let (a, c, size) = (v[s.addr], v[s.clk], v[s.size]);
                // the end of a commitment is all there is
                if d > 3 && size > 32 { return Ok(false); }
                let mut bytes: Vec<(u64, u8)> = mem.iter().filter(|x| x.0[clk] == c).map(|x| ((x.0[addr] + U32 - a) % U32, x.0[val] as u8)).collect();
                bytes.sort_unstable();
                if bytes.len() as u64 != size { return fail(format!("a read of {size} bytes stores {}", bytes.len())); }
                let mut st = blank(c);
                st.registers[10] = TAPE_IDS[d];
                st.registers[11] = a as u32;
                st.registers[12] = size as u32;
                give(&mut st, d, &bytes.iter().map(|x| x.1).collect::<Vec<_>>());
                for (x, m) in said(ctx, &ecall(st).map_err(Fail::from)?, &[t], None) { more(&mut want, x, m); }
            }
            differ(&b, &want)?;
        }
        K::Poseidon2Sponge => {
            let b = said(ctx, w, &[t], None);
            let [clk, _, ld, addr, val] = mem_ix();
            let (rclk, _, raddr, rval) = reg_ix();
            let of = |k: usize| b.iter().filter(move |x| x.0 .0 == k).map(|x| (&x.0 .1, *x.1)).collect::<Vec<_>>();
            let mem = of(n.mem);
            if mem.iter().any(|x| x.0[addr] >= U32 || x.0[val] > 255) || of(n.reg).iter().any(|x| x.0[rval] >= U32) { return Ok(false); }
            let calls = of(n.sponge);
            let mut want = Bag::new();
            for (v, m) in &calls {
                // the CPU calls once per clock
                if *m != 1 || !clock(v[0]) { return Ok(false); }
                any = true;
                let mut st = blank(v[0]);
                st.registers[10] = 3;
                for (x, _) in of(n.reg) {
                    if x[rclk] != v[0] { continue; }
                    let at = x[raddr] as usize;
                    if at > 31 || st.registers[at] != 0 { return Ok(false); }
                    st.registers[at] = x[rval] as u32;
                }
                let (a, len, out) = (u64::from(st.registers[11]), u64::from(st.registers[12]), u64::from(st.registers[13]));
                if a + len > U32 || out + 32 > U32 { return Ok(false); }
                let loads: Vec<_> = mem.iter().filter(|x| x.0[clk] == v[0] && x.0[ld] == 1).collect();
                for (x, _) in &loads {
                    if st.memory.data.insert(x[addr] as u32, x[val] as u8).is_some_and(|o| u64::from(o) != x[val]) { return Ok(false); }
                }
                if len == 0 || len % 8 != 0 || loads.len() as u64 != len { return fail(format!("hashes {len} bytes, {} of them loaded", loads.len())); }
                for (x, m) in said(ctx, &ecall(st).map_err(Fail::from)?, &[t], None) { more(&mut want, x, m); }
            }
            // how often the same permutation is used is all the same
            let flat = |b: &Bag| -> Bag { b.iter().map(|(k, m)| (k.clone(), if k.0 == n.perm { 1 } else { *m })).collect() };
            differ(&flat(&b), &flat(&want))?;
        }
        K::TapeCommitments => {
            for (i, k) in [n.ev, n.cl].into_iter().enumerate() {
                let v = w.sub(&ctx.rules.subs[i]);
                if v.len() != 32 { return Ok(false); }
                any = true;
                for ((c, x), m) in said(ctx, w, &[t], None) {
                    if c != k { continue; }
                    let (byte, index) = (x[0], x[1]);
                    // asked for 32 bytes, and nothing else
                    if index >= 32 { continue; }
                    if v[index as usize] != byte { return fail(format!("byte {index} is {byte} ({m} times) and {:?} in public", v[index as usize])); }
                }
            }
        }
        K::CpuSkeleton => {
            let s: CpuSkeletonCtl<usize> = (0..4).collect();
            let mut rows: Vec<(Tuple, u64)> = said(ctx, w, &[t], None).into_iter().map(|x| (x.0 .1, F::ORDER - x.1)).collect();
            rows.sort_by_key(|x| x.0[s.clk]);
            let mut pc = u64::from(program.entry_point);
            let last = rows.len().wrapping_sub(1);
            if rows.is_empty() { return fail("nothing is executed".into()); }
            for (i, (v, m)) in rows.iter().enumerate() {
                any = true;
                // whatever the CPU is asked for but cannot have done
                if v[s.will_halt] > 1 { return Ok(false); }
                if *m != 1 { return fail(format!("step {v:?} happens {m} times")); }
                if v[s.clk] != 2 + i as u64 || v[s.pc] != pc || v[s.will_halt] != u64::from(i == last) { return fail(format!("step {i} is {v:?} (with {last} more)")); }
                pc = v[s.new_pc];
            }
        }
        K::Register => {
            let (clk, op, addr, val) = reg_ix();
            let b = said(ctx, w, &[t], None);
            let inits: BTreeMap<u64, u64> = ctx.rules.ctls[n.reg].iter().filter(|s| s.table == K::RegisterInit as usize).flat_map(|s| (0..w.t[s.table].len()).map(|r| w.side(s, r).1).collect::<Vec<_>>()).map(|v| (v[addr], v[val])).collect();
            let mut by: BTreeMap<u64, Vec<(u64, u64, u64)>> = BTreeMap::new();
            let mut seen = BTreeSet::new();
            for ((_, v), m) in &b {
                // nobody asks a negative number of times
                if (F::ORDER - m) > 10_000 || v[clk] >= 1 << 29 { return Ok(false); }
                match v[op] {
                    0 => { if v[clk] != 0 || inits.get(&v[addr]) != Some(&v[val]) { return Ok(false); } seen.insert(v[addr]); }
                    1 | 2 => by.entry(v[addr]).or_default().push((v[clk], v[op], v[val])),
                    _ => return Ok(false),
                }
            }
            if seen.len() != inits.len() { return Ok(false); }
            any = true;
            for (a, mut ops) in by {
                ops.sort_unstable();
                let Some(now) = inits.get(&a) else { return fail(format!("register {a} answers")) };
                let mut now = *now;
                for i in 0..ops.len() {
                    let (c, o, v) = ops[i];
                    if c < 2 { return Ok(false); }
                    // two different writes at once is more than the CPU does
                    if o == 2 && i > 0 && ops[i - 1].0 == c && ops[i - 1].1 == 2 { return Ok(false); }
                    if o == 2 { now = v; } else if v != now { return fail(format!("register {a} is {now} at clock {c}, but read as {v}")); }
                }
            }
        }
        K::Memory => {
            let [clk, st, ld, addr, val] = mem_ix();
            let b = said(ctx, w, &[t], None);
            let ix: MemoryInitCtl<usize> = (0..4).collect();
            let elf: BTreeMap<u64, (u64, u64)> = ctx.rules.ctls[n.init].iter().filter(|s| s.table == K::ElfMemoryInit as usize).flat_map(|s| (0..w.t[s.table].len()).map(|r| w.side(s, r)).filter(|x| x.0 != F::ZERO).map(|x| x.1).collect::<Vec<_>>())
                .map(|v| (v[ix.address], (v[ix.is_writable], v[ix.value]))).collect();
            let mut seen = BTreeMap::new();
            let mut zero = BTreeSet::new();
            let mut by: BTreeMap<u64, Vec<(u64, u64, u64)>> = BTreeMap::new();
            for ((k, v), m) in &b {
                let m = F::ORDER - m;
                if m > 10_000 { return Ok(false); }
                if *k == n.init {
                    if v[ix.clk] == 1 && elf.get(&v[ix.address]) == Some(&(v[ix.is_writable], v[ix.value])) { seen.insert(v[ix.address], m); }
                    else if v[ix.clk] == 0 && v[ix.is_writable] == 1 && v[ix.value] == 0 { zero.insert(v[ix.address]); }
                    else { return Ok(false); }
                } else {
                    if !clock(v[clk]) || v[st] + v[ld] != 1 || v[st] > 1 { return Ok(false); }
                    by.entry(v[addr]).or_default().push((v[clk], v[st], v[val]));
                }
            }
            if seen.len() != elf.len() || seen.values().any(|m| *m != 1) { return Ok(false); }
            any = true;
            for (a, mut ops) in by {
                ops.sort_unstable();
                if a >= U32 { return fail(format!("memory at {a} answers")); }
                let (writable, init) = elf.get(&a).copied().unwrap_or((1, 0));
                if !elf.contains_key(&a) && !zero.contains(&a) { return fail(format!("memory at {a} answers without an init")); }
                let mut now = BTreeSet::from([init]);
                let mut i = 0;
                while i < ops.len() {
                    let c = ops[i].0;
                    let group: Vec<_> = ops[i..].iter().take_while(|x| x.0 == c).collect();
                    let stores: BTreeSet<u64> = group.iter().filter(|x| x.1 == 1).map(|x| x.2).collect();
                    for x in &group {
                        if x.1 == 1 && writable == 0 { return fail(format!("read-only memory at {a} is written at clock {c}")); }
                        if x.2 > 255 { return fail(format!("memory at {a} is {} at clock {c}", x.2)); }
                        if x.1 == 0 && !now.contains(&x.2) && !stores.contains(&x.2) { return fail(format!("memory at {a} is {now:?} at clock {c}, but loaded as {}", x.2)); }
                    }
                    i += group.len();
                    if !stores.is_empty() { now = stores; }
                }
            }
        }
        K::MemoryZeroInit | K::RegisterZeroRead | K::RegisterZeroWrite => {
            let (_, op, addr, val) = reg_ix();
            let ix: MemoryInitCtl<usize> = (0..4).collect();
            for ((_, v), m) in said(ctx, w, &[t], None) {
                any = true;
                let ok = match kind(t) {
                    K::MemoryZeroInit => v[ix.clk] == 0 && v[ix.value] == 0 && v[ix.is_writable] == 1 && m < 1 << 30,
                    K::RegisterZeroRead => v[addr] == 0 && v[op] == 1 && v[val] == 0,
                    _ => v[addr] == 0 && v[op] == 2,
                };
                if !ok { return fail(format!("it says {v:?} {m} times")); }
            }
        }
        _ => {}
    }
    Ok(any)
}
fn differ(got: &Bag, want: &Bag) -> Result<(), Fail> {
    if got == want { return Ok(()); }
    let only = |x: &Bag, y: &Bag| x.iter().filter(|(k, v)| y.get(*k) != Some(*v)).map(|x| format!("{:?} of lookup {} ({} times)", x.0 .1, x.0 .0, x.1)).take(3).collect::<Vec<_>>();
    fail(format!("it has {:?}, the VM {:?}", only(got, want), only(want, got)))
}
fn more(b: &mut Bag, x: (usize, Tuple), m: u64) {
    let e = b.entry(x).or_default();
    *e = num(F::from_canonical_u64(*e) + F::from_canonical_u64(m));
}
fn blank(clk: u64) -> State<F> {
    let mut s = State::default();
    s.clk = clk;
    s.pc = BASE;
    s
}
fn give(st: &mut State<F>, d: usize, bytes: &[u8]) {
    let tape = || StorageDeviceTape { data: Rc::from(bytes), read_index: 0 };
    let full = || { let mut x = [0; 32]; for (i, b) in bytes.iter().take(32).enumerate() { x[i] = *b; } x };
    match d { 0 => st.private_tape = tape(), 1 => st.public_tape = tape(), 2 => st.call_tape = tape(), 3 => st.event_tape = tape(), 4 => st.events_commitment_tape = CommitmentTape(full()), 5 => st.cast_list_commitment_tape = CommitmentTape(full()), _ => st.self_prog_id_tape = full() }
}
fn step(program: &Program, st: State<F>) -> Result<World, String> {
    let (aux, instruction, next) = go(program, &st)?;
    guarded(|| World::generate(program, &ExecutionRecord { executed: vec![Row { state: st, instruction, aux }], last_state: next }))
}
fn ecall(st: State<F>) -> Result<World, String> {
    let mut p = Program { entry_point: BASE, ..Program::default() };
    p.ro_code.0.insert(BASE, Ok(Instruction::new(Op::ECALL, Args::default())));
    step(&p, st)
}
/// What a row says is what the VM would say in the state the row is about.
fn one_step(ctx: &Ctx, n: &Names, program: &Program, tables: &[usize], b: Bag) -> Result<bool, Fail> {
    let s: CpuSkeletonCtl<usize> = (0..4).collect();
    let d: StorageDeviceCtl<usize> = (0..4).collect();
    let [_, mst, mld, maddr, mval] = mem_ix();
    let (rclk, rop, raddr, rval) = reg_ix();
    let of = |k: usize| b.iter().filter(move |x| x.0 .0 == k).map(|x| (&x.0 .1, *x.1)).collect::<Vec<_>>();
    let [(v, m)] = of(n.skel)[..] else { return fail(format!("without a step: {:?}", b.keys().take(3).collect::<Vec<_>>())) };
    if m != 1 { return fail(format!("step {v:?} happens {m} times")); }
    if !clock(v[s.clk]) || v[s.pc] >= U32 { return Ok(false); }
    // where there is no instruction, nothing goes on
    if v[s.will_halt] != 1 && !u32::try_from(v[s.new_pc]).is_ok_and(|x| program.ro_code.0.contains_key(&x)) { return Ok(false); }
    // the table of registers starts no others
    if of(n.reg).iter().any(|(x, _)| x[raddr] > 31) { return Ok(false); }
    let mut regs: HashMap<u64, u64> = HashMap::from([(0, 0)]);
    let mut clash = false;
    let mut know = |a: u64, x: u64| { clash |= a > 31 || x >= U32 || *regs.entry(a).or_insert(x) != x };
    for (x, _) in of(n.reg) { if x[rop] == 1 && x[rclk] == v[s.clk] { know(x[raddr], x[rval]); } }
    let mut st = blank(v[s.clk]);
    st.pc = v[s.pc] as u32;
    for (x, _) in of(n.tape) {
        let Some(i) = Some(x[d.op] as usize).filter(|x| *x < 7) else { return Ok(false) };
        // the tape table reads the address
        know(11, x[d.addr]);
        if x[d.size] > 5000 || i > 3 && x[d.size] > 32 { return Ok(false); }
        st.registers[12] = x[d.size] as u32;
        give(&mut st, i, &vec![0; x[d.size] as usize]);
    }
    let hash = !of(n.sponge).is_empty();
    if hash { st.registers[12] = 8; }
    for (k, bytes) in [(n.mem, 1), (n.half, 2), (n.full, 4)] {
        for (x, _) in of(k) {
            if x[maddr] >= U32 || x[mval] >> (8 * bytes) != 0 { return Ok(false); }
            if x[mld] == 1 && x[mst] == 0 { for i in 0..bytes { st.memory.data.insert((x[maddr] as u32).wrapping_add(i), (x[mval] >> (8 * i)) as u8); } }
        }
    }
    if clash { return Ok(false); }
    for (a, x) in regs { if a != 12 || !hash { st.registers[a as usize] = x as u32; } }
    let p = Program { ro_memory: Data::default(), rw_memory: Data::default(), ..program.clone() };
    let w = match step(&p, st) {
        Ok(w) => w,
        Err(_) if hash => return Ok(false),
        Err(e) => return fail(format!("{:?}, where {e}", b.keys().take(6).collect::<Vec<_>>())),
    };
    // what is written to register 0 goes nowhere, what is read from it is known, and nothing comes after a halt
    let plain = |b: Bag| -> Bag {
        let mut o = Bag::new();
        for ((k, mut v), m) in b {
            if k == n.reg && v[raddr] == 0 && (v[rop] == 2 || v[rval] == 0) { continue; }
            if k == n.skel && v[s.will_halt] == 1 { v[s.new_pc] = 0; }
            more(&mut o, (k, v), m);
        }
        o
    };
    differ(&plain(b), &plain(said(ctx, &w, tables, None)))?;
    Ok(true)
}
