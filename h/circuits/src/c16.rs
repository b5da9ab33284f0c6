//! C16: whatever the VM completes can be proved.
use std::collections::{BTreeMap, BTreeSet};

use h_common::{ensure_that, guarded, Check, Fail, Obs, Verdict};
use mozak_circuits::stark::batch_prover::batch_prove;
use mozak_circuits::stark::batch_verifier::batch_verify_proof;
use mozak_circuits::stark::mozak_stark::{TableKind as K, PUBLIC_TABLE_KINDS};
use mozak_circuits::stark::prover::prove;
use mozak_circuits::stark::verifier::verify_proof;
use mozak_circuits::test_utils::{fast_test_config, C};
use mozak_runner::instruction::Op;
use mozak_runner::vm::{self, ExecutionRecord};
use plonky2::field::types::Field;
use plonky2::util::timing::TimingTree;
use proptest::prelude::*;

use crate::gen::{self, Item, Prog};
use crate::world::{kind, public_inputs, Bad, Mask, Rules, World, D, F};
use crate::drive;

/// A program image the prover is meant to handle: an ELF never loads two segments over each other.
pub fn provable(mut p: Prog) -> Prog {
    let ro: Vec<u32> = p.ro.iter().map(|x| x.0).collect();
    p.rw.retain(|x| !ro.contains(&x.0));
    p
}

pub fn items() -> BoxedStrategy<Item> {
    prop_oneof![8 => gen::alu(), 4 => gen::ctl(), 6 => gen::mem(gen::rw_addr().boxed()), 2 => gen::ecalls(), 1 => gen::hashes(4)].boxed()
}
/// Without what the prover is known not to manage.
pub fn tame(mut p: Prog) -> Prog {
    for it in &mut p.items {
        if let Item::Ecall(id, a, n, o) = it {
            match *id {
                0..=2 | 4..=6 | 10 => {}
                3 => {
                    if u64::from(*a) + u64::from(*n) > 1 << 32 { *a = 0u32.wrapping_sub(*n); }
                    if u64::from(*o) + 32 > 1 << 32 { *o = 0u32.wrapping_sub(32); }
                }
                7..=9 => *n = (*n).max(32),
                _ => *id = 4 + *id % 3,
            }
        }
    }
    p
}
pub fn tame_progs(max: usize) -> BoxedStrategy<Prog> { progs(max).prop_map(tame).boxed() }
pub fn progs(max: usize) -> BoxedStrategy<Prog> { gen::prog(items(), max, true).prop_map(provable).boxed() }


/// Runs the prover is known not to manage (known_findings.txt), by what the run did.
#[derive(Default)]
pub struct Limits {
    /// how many ecalls without a meaning are executed
    unknown: usize,
    /// a hash reads or writes over the end of the address space
    wraps: bool,
    /// a commitment is read in part
    partial: bool,
}
pub fn limits(record: &ExecutionRecord<F>) -> Limits {
    let mut l = Limits::default();
    for r in &record.executed {
        if r.instruction.op != Op::ECALL { continue; }
        let x = |k: u8| r.state.get_register_value(k);
        match x(10) {
            0..=2 | 4..=6 | 10 => {}
            3 => l.wraps |= u64::from(x(11)) + u64::from(x(12)) > 1 << 32 || u64::from(x(13)) + 32 > 1 << 32,
            7..=9 => l.partial |= x(12) < 32,
            _ => l.unknown += 1,
        }
    }
    l
}
impl Limits {
    pub fn any(&self) -> bool { self.unknown > 0 || self.wraps || self.partial }
    /// The finding an objection belongs to.
    fn sig(&self, rules: &Rules, b: &Bad) -> Option<&'static str> {
        let is = |t: usize, ks: &[K]| ks.iter().any(|k| *k as usize == t);
        match b {
            Bad::Constraint(t, ..) if *t == K::Cpu as usize && self.unknown > 0 => Some("unknown-ecall"),
            Bad::Constraint(t, ..) if self.wraps && is(*t, &[K::Memory, K::Poseidon2Sponge, K::Poseidon2OutputBytes]) => Some("hash-wraps"),
            Bad::Lookup(k, ..) if self.wraps && rules.ctls[*k].iter().any(|s| is(s.table, &[K::Memory, K::RangeCheck, K::RangeCheckU8])) => Some("hash-wraps"),
            Bad::Lookup(k, ..) if self.partial && rules.ctls[*k].iter().any(|s| s.table == K::TapeCommitments as usize) => Some("partial-commitment"),
            _ => None,
        }
    }
}

pub fn honest(rules: &Rules, p: &Prog) -> Verdict {
    let (m, program, state) = drive::setup(p);
    // what the VM makes of the program is the runner's own matter (C01 to C06)
    let Ok(Ok(record)) = guarded(|| vm::step(&program, state)) else { return Ok(Obs::new(false)) };
    let l = limits(&record);
    let w = match guarded(|| World::generate(&program, &record)) {
        Ok(w) => w,
        Err(e) => return Err(Fail { sig: l.wraps.then(|| "hash-wraps".into()), msg: format!("generating the traces panicked: {e}") }),
    };
    let bad = w.bad(rules, &Mask::default());
    // one row of the CPU table for each ecall without a meaning, no more
    let rows: BTreeSet<usize> = bad.iter().filter_map(|b| match b { Bad::Constraint(t, r, _) if kind(*t) == K::Cpu => Some(*r), _ => None }).collect();
    ensure_that!(l.unknown == 0 || rows.len() <= l.unknown, "{} (and {} more)", bad[0], bad.len() - 1);
    if let Some(b) = bad.iter().find(|b| l.sig(rules, b).is_none()) { return Err(Fail::from(format!("{b} (and {} more)", bad.len() - 1))); }
    if let Some(b) = bad.first() { return Err(Fail { sig: l.sig(rules, b).map(Into::into), msg: b.to_string() }); }
    // what a proof makes public is what the program read
    for (s, tape, id) in [(0, m.tapes.ev_commit, 7), (1, m.tapes.cl_commit, 8)] {
        let asked = record.executed.iter().any(|r| r.instruction.op == Op::ECALL && r.state.get_register_value(10) == id);
        let v = w.sub_rows(&rules.subs[s]);
        // the verifier counts the rows in the order they are in
        if asked { ensure_that!(v.len() == 32 && (0..32).all(|i| v[i][0] == u64::from(tape[i]) && v[i].get(1).map_or(true, |x| *x == i as u64)), "public values {s} are {v:?}, the tape is {tape:?}"); }
    }
    let op = |f: &dyn Fn(Op) -> bool| record.executed.iter().any(|r| f(r.instruction.op));
    let call = |f: &dyn Fn(u32) -> bool| record.executed.iter().any(|r| r.instruction.op == Op::ECALL && f(r.state.get_register_value(10)));
    Ok(Obs::new(record.executed.len() > 8)
        .class(op(&|o| matches!(o, Op::LB | Op::LBU | Op::LH | Op::LHU | Op::LW)), "loads")
        .class(op(&|o| matches!(o, Op::SB | Op::SH | Op::SW)), "stores")
        .class(op(&|o| matches!(o, Op::DIV | Op::DIVU | Op::REM | Op::REMU)), "divides")
        .class(op(&|o| matches!(o, Op::MULH | Op::MULHSU | Op::MULHU)), "multiplies high")
        .class(op(&|o| matches!(o, Op::SLL | Op::SRL | Op::SRA)), "shifts")
        .class(op(&|o| matches!(o, Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU)), "branches")
        .class(op(&|o| o == Op::JALR), "jumps")
        .class(call(&|x| x == 3), "hashes")
        .class(call(&|x| (2..7).contains(&x) && x != 3), "reads a tape")
        .class(call(&|x| (7..10).contains(&x)), "reads a commitment")
        .class(record.last_state.clk > 128, "over 128 steps"))
}

/// The same through polynomials, commitments and FRI.
fn proof(rules: &Rules, p: &Prog) -> Verdict {
    let (_, program, state) = drive::setup(p);
    let Ok(Ok(record)) = guarded(|| vm::step(&program, state)) else { return Ok(Obs::new(false)) };
    if limits(&record).any() { return Ok(Obs::new(false)); }
    let config = fast_test_config();
    let all = prove::<F, C, D>(&program, &record, rules.stark, &config, public_inputs(&program), &mut TimingTree::default())
        .map_err(|e| Fail::from(format!("proving failed: {e:#}")))?;
    verify_proof(rules.stark, all, &config).map_err(|e| Fail::from(format!("an honest proof is refused: {e:#}")))?;
    Ok(Obs::new(true))
}
fn batch(rules: &Rules, p: &Prog) -> Verdict {
    let (_, program, state) = drive::setup(p);
    let Ok(Ok(record)) = guarded(|| vm::step(&program, state)) else { return Ok(Obs::new(false)) };
    if limits(&record).any() { return Ok(Obs::new(false)); }
    let config = fast_test_config();
    let (proof, degree_bits) = batch_prove::<F, C, D>(&program, &record, rules.stark, &PUBLIC_TABLE_KINDS, &config, public_inputs(&program), &mut TimingTree::default())
        .map_err(|e| Fail::from(format!("proving failed: {e:#}")))?;
    batch_verify_proof(rules.stark, &PUBLIC_TABLE_KINDS, proof, &config, &degree_bits).map_err(|e| Fail::from(format!("an honest batch proof is refused: {e:#}")))?;
    Ok(Obs::new(true))
}

pub fn explore(n: usize) {
    use proptest::strategy::ValueTree;
    let rules = Rules::new();
    let mut r = proptest::test_runner::TestRunner::deterministic();
    let mut h: BTreeMap<String, (usize, String)> = BTreeMap::new();
    let st = progs(5);
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..n {
        let p = st.new_tree(&mut r).unwrap().current();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let (_, program, state) = drive::setup(&p);
            let Ok(Ok(record)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mozak_runner::vm::step(&program, state))) else { return "vm".to_string() };
            let w = World::generate(&program, &record);
            let bad = w.bad(&rules, &Mask::default());
            let mut k: Vec<String> = bad.iter().map(|b| match b { Bad::Constraint(t, _, c) => format!("{:?}#{c}", crate::world::kind(*t)), Bad::Lookup(k, ..) => format!("ctl{k}") }).collect();
            k.dedup(); k.truncate(6); k.join(" ")
        })).unwrap_or("PANIC".into());
        let s = format!("{:?} regs {:?}", p.items, &p.regs[..8]);
        let e = h.entry(res).or_insert((0, s.clone()));
        e.0 += 1;
        if s.len() < e.1.len() { e.1 = s; }
    }
    for (k, (n, ex)) in h { println!("{n:6} {k}\n        {}", ex.chars().take(400).collect::<String>()); }
}


pub fn check() -> ! {
    let mut c = Check::new("C16");
    let rules = Rules::new();
    c.assume("The VM's own semantics are C01 to C06's matter: a program the VM refuses or does not finish is no case here.");
    c.run_list("degrees", "every table: no constraint exceeds the degree 3 that the proof system is configured for", (0..30).collect(), |t: &usize| {
        let s = &rules.slps(F::ONE)[*t];
        ensure_that!(s.degree.iter().all(|d| *d <= 3), "a constraint of {:?} has degree {:?}", crate::world::kind(*t), s.degree.iter().max());
        Ok(Obs::new(s.len() > 0))
    });
    let rule = "the run executes more than 8 instructions; every constraint of every row and every lookup is evaluated";
    c.run("small programs", rule, c.cases(4000, 20), || tame_progs(6), |p| honest(&rules, p));
    c.run("programs", rule, c.cases(4000, 20), || tame_progs(40), |p| honest(&rules, p));
    c.run("any programs", rule, c.cases(1000, 20), || progs(12), |p| honest(&rules, p));
    c.run("proofs", "a proof is made and verified", c.cases(100, 20), || tame_progs(12), |p| proof(&rules, p));
    c.run("batch proofs", "a batch proof is made and verified", c.cases(100, 20), || tame_progs(12), |p| batch(&rules, p));
    c.finish()
}
