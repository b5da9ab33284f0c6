//! C21: a verifier accepts a proof for what it was made for, and for nothing else.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use h_common::{ensure_that, guarded, Check, Fail, Obs, Verdict};
use mozak_circuits::generation::generate_traces;
use mozak_circuits::stark::batch_prover::batch_prove;
use mozak_circuits::stark::batch_verifier::batch_verify_proof;
use mozak_circuits::public_sub_table::{reduce_public_sub_table_targets, reduce_public_sub_tables_values};
use mozak_circuits::stark::permutation::challenge::{GrandProductChallenge, GrandProductChallengeSet};
use mozak_circuits::stark::mozak_stark::{PublicInputs, TableKind as K, TableKindArray, PUBLIC_TABLE_KINDS};
use mozak_circuits::stark::proof::{AllProof, BatchProof};
use mozak_circuits::stark::prover::{get_program_id, prove_with_traces};
use mozak_circuits::stark::recursive_verifier::{
    recursive_batch_stark_circuit, recursive_mozak_stark_circuit, MozakBatchStarkVerifierCircuit, MozakStarkVerifierCircuit, VMRecursiveProofPublicInputs, VM_PUBLIC_INPUT_SIZE,
};
use mozak_circuits::stark::verifier::verify_proof;
use mozak_circuits::test_utils::{fast_test_circuit_config, fast_test_config, C};
use mozak_runner::vm;
use plonky2::field::extension::quadratic::QuadraticExtension;
use plonky2::field::extension::FieldExtension;
use plonky2::field::types::{Field, Field64, PrimeField64};
use plonky2::iop::challenger::Challenger;
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::CircuitData;
use plonky2::plonk::config::GenericConfig;
use plonky2::util::timing::TimingTree;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

use crate::c16::{self, tame_progs};
use crate::drive;
use crate::gen::Prog;
use crate::world::{public_inputs, Mask, Rules, Stk, World, D, F};

type All = AllProof<F, C, D>;
type Batch = BatchProof<F, C, D>;
type H = <C as GenericConfig<D>>::Hasher;
const P: u64 = F::ORDER;

// ---- proofs as documents, and what can be done to them ------------------------------

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn word(&mut self) -> u64 { match self.below(5) { 0 => 0, 1 => 1, 2 => P - 1, 3 => self.next() % 256, _ => self.next() % P } }
}
#[derive(Clone, Debug, PartialEq)]
enum Step { Key(String), Ix(usize) }
fn at<'a>(v: &'a mut Value, path: &[Step]) -> &'a mut Value {
    path.iter().fold(v, |v, s| match s { Step::Key(k) => v.get_mut(k).unwrap(), Step::Ix(i) => v.get_mut(*i).unwrap() })
}
fn show(path: &[Step]) -> String {
    path.iter().map(|s| match s { Step::Key(k) => format!(".{k}"), Step::Ix(i) => format!("[{i}]") }).collect()
}
/// A way down to a number or a string, every branch as likely as its sisters.
fn descend(v: &Value, r: &mut Rng) -> Vec<Step> {
    let mut path = vec![];
    let mut v = v;
    loop {
        match v {
            Value::Object(m) if !m.is_empty() => {
                let k = m.keys().nth(r.below(m.len())).unwrap().clone();
                v = &m[&k];
                path.push(Step::Key(k));
            }
            Value::Array(a) if !a.is_empty() => {
                let i = r.below(a.len());
                v = &a[i];
                path.push(Step::Ix(i));
            }
            _ => return path,
        }
    }
}
fn has(path: &[Step], k: &str) -> bool { path.iter().any(|s| *s == Step::Key(k.into())) }
/// Parts of a proof that say nothing: the nonce, and in a batch proof what the common proof stands in for.
fn mute(path: &[Step], batch: bool) -> bool {
    if has(path, "pow_witness") { return true; }
    if !batch { return false; }
    match path {
        [Step::Key(a), Step::Ix(k), rest @ ..] if a == "proofs" => !PUBLIC_TABLE_KINDS.iter().any(|p| *p as usize == *k) && !has(rest, "openings"),
        [Step::Key(a), rest @ ..] if a == "batch_stark_proof" => has(rest, "openings"),
        _ => false,
    }
}
fn field(f: F) -> u64 { f.to_canonical_u64() }

/// What was done, and whether the shape of the proof stays the same.
struct Done { what: String, shape: bool, class: &'static str }

fn word(v: &mut Value, r: &mut Rng, batch: bool) -> Option<Done> {
    let path = descend(v, r);
    if mute(&path, batch) { return None; }
    let x = at(v, &path);
    match x {
        Value::Number(n) => {
            let old = n.as_u64()?;
            let new = match r.below(3) { 0 => (old + 1) % P, 1 => old.checked_sub(1).unwrap_or(P - 1), _ => r.word() };
            *x = new.into();
        }
        Value::String(s) => {
            let hex: Vec<usize> = s.char_indices().filter(|c| c.1.is_ascii_hexdigit()).map(|c| c.0).collect();
            if hex.is_empty() { return None; }
            let i = hex[r.below(hex.len())];
            let c = if &s[i..=i] == "0" { "1" } else { "0" };
            s.replace_range(i..=i, c);
        }
        _ => return None,
    }
    let class = if has(&path, "openings") { "openings" } else if has(&path, "opening_proof") { "openings' proof" } else if has(&path, "proofs") || has(&path, "batch_stark_proof") { "commitments" } else { "what it is of" };
    Some(Done { what: format!("another {}", show(&path)), shape: true, class })
}
fn list(v: &mut Value, r: &mut Rng, batch: bool) -> Option<Done> {
    let mut path = descend(v, r);
    let up = r.below(3);
    for _ in 0..up { path.pop(); }
    while !path.is_empty() && !at(v, &path).is_array() { path.pop(); }
    if path.is_empty() || mute(&path, batch) { return None; }
    // extension elements and tables come in fixed numbers
    let a = at(v, &path).as_array_mut()?;
    if a.is_empty() { return None; }
    let (i, j) = (r.below(a.len()), r.below(a.len()));
    let mut shape = false;
    let what = match r.below(6) {
        0 => { a.remove(i); "an entry less" }
        1 => { let x = a[i].clone(); a.insert(j, x); "an entry twice" }
        2 => { fn zero(v: &mut Value) { match v { Value::Number(_) => *v = 0.into(), Value::Array(a) => a.iter_mut().for_each(zero), Value::Object(o) => o.values_mut().for_each(zero), _ => {} } } let mut x = a[i].clone(); zero(&mut x); a.push(x); "a zero more" }
        3 => { a.swap(i, j); shape = true; "entries exchanged" }
        4 => { a.reverse(); shape = true; "back to front" }
        _ => { a.clear(); "nothing" }
    };
    Some(Done { what: format!("{what} in {}", show(&path)), shape: shape && !has(&path, "proofs"), class: "lists" })
}
/// Entries handed from one list of openings to the next: laid end to end they stay the same.
fn hand(v: &mut Value, r: &mut Rng) -> Option<Done> {
    let n = v["proofs"].as_array()?.len();
    let pairs = [("local_values", "ctl_zs"), ("ctl_zs", "quotient_polys"), ("next_values", "ctl_zs_next")];
    let (a, b) = pairs[r.below(3)];
    let forth = r.below(3) == 0;
    let all = r.below(2) == 0;
    let one = r.below(n);
    let every = r.below(3) == 0;
    let mut moved = 0;
    for k in 0..n {
        if !every && k != one { continue; }
        let o = &mut v["proofs"][k]["openings"];
        let (mut x, mut y) = (o[a].as_array()?.clone(), o[b].as_array()?.clone());
        if forth { for _ in 0..if all { x.len() } else { 1 } { if let Some(e) = x.pop() { y.insert(0, e); moved += 1; } } }
        else { let m = if all { y.len() } else { y.len().min(1) }; moved += m; x.extend(y.drain(..m)); }
        o[a] = x.into();
        o[b] = y.into();
    }
    if moved == 0 { return None; }
    Some(Done { what: format!("{moved} openings handed from {} to {}", if forth { a } else { b }, if forth { b } else { a }), shape: false, class: "handed on" })
}
/// The number of the table with public rows.
const PUB: usize = K::TapeCommitments as usize;
fn publics(v: &mut Value, r: &mut Rng) -> Option<Done> {
    let t = &mut v["public_sub_table_values"];
    let s = r.below(2);
    let rows = t[PUB][s].as_array()?.len();
    let (i, j) = (r.below(rows), r.below(rows));
    let (mut shape, mut class) = (true, "public rows");
    let what = match r.below(9) {
        7 => { shape = false; let k = r.below(30); t[k].as_array_mut()?.push(Value::Array(vec![])); class = "more public rows"; format!("table {k} has an empty list of public rows more") }
        8 => { shape = false; t[PUB][s].as_array_mut()?.insert(i, Value::Array(vec![])); "a public row of nothing more".into() }
        0 => { let a = t[PUB][s].as_array_mut()?; a.swap(i, j); format!("public rows {i} and {j} exchanged") }
        1 => { t[PUB][s].as_array_mut()?.rotate_left(i); format!("public rows turned by {i}") }
        2 => { t[PUB].as_array_mut()?.swap(0, 1); "the two public tables exchanged".into() }
        3 => { let x = r.word(); t[PUB][s][i][0] = x.into(); format!("public row {i} is {x}") }
        4 => { shape = false; t[PUB][s][i].as_array_mut()?.push(0.into()); format!("public row {i} has another zero") }
        5 => { shape = false; let x = t[PUB][0].clone(); let k = r.below(30); t[k].as_array_mut()?.push(x); class = "more public rows"; format!("table {k} has more public rows") }
        _ => { shape = false; let x = t[PUB][s][i].clone(); t[PUB][s].as_array_mut()?.push(x); "a public row more".into() }
    };
    Some(Done { what, shape, class })
}
fn sqrt(a: F) -> Option<F> {
    if a == F::ZERO { return Some(a); }
    let pow = |b: F, e: u64| b.exp_u64(e);
    let q = (P - 1) >> 32;
    if pow(a, (P - 1) / 2) != F::ONE { return None; }
    let mut c = pow(F::from_canonical_u64(7), q);
    let (mut x, mut t, mut m) = (pow(a, (q + 1) / 2), pow(a, q), 32);
    while t != F::ONE {
        let mut i = 0;
        let mut s = t;
        while s != F::ONE { s = s * s; i += 1; }
        let b = (0..m - i - 1).fold(c, |b, _| b * b);
        x *= b;
        c = b * b;
        t *= c;
        m = i;
    }
    Some(x)
}
/// Other public rows which add up to the same, for one who knows the challenges.
/// `ch`: the challenges; a row stands for its value + gamma + its number * w.
fn forge(v: &mut Value, r: &mut Rng, ch: &[(F, F)]) -> Option<Done> {
    let s = r.below(2);
    let (i, j) = (r.below(32), r.below(31));
    let j = if j >= i { j + 1 } else { j };
    let k = loop { let k = r.below(32); if k != i && k != j { break k; } };
    let counted = r.below(2) == 1;
    let rows = v["public_sub_table_values"][PUB][s].as_array()?.clone();
    if rows.len() != 32 || ch.len() != 2 { return None; }
    let mut val: Vec<F> = rows.iter().map(|x| x[0].as_u64().map(F::from_canonical_u64)).collect::<Option<_>>()?;
    let off = |c: usize, n: usize| ch[c].1 + if counted { ch[c].0 * F::from_canonical_usize(n) } else { F::ZERO };
    let sum = |val: &[F], c: usize| (0..32).map(|n| (val[n] + off(c, n)).try_inverse()).sum::<Option<F>>();
    let want = [sum(&val, 0)?, sum(&val, 1)?];
    val[k] = F::from_canonical_u64(r.next() % 256);
    let mut left = [F::ZERO; 2];
    for c in 0..2 { left[c] = want[c] - (sum(&val, c)? - (val[i] + off(c, i)).inverse() - (val[j] + off(c, j)).inverse()); }
    // (x + a)/(R (x + a) - 1) - b is the same for both challenges
    let (a, b) = ([off(0, i), off(1, i)], [off(0, j), off(1, j)]);
    // polynomials in x, lowest first
    let n = |c: usize| [a[c], F::ONE];
    let d = |c: usize| [left[c] * a[c] - F::ONE, left[c]];
    let mul = |p: [F; 2], q: [F; 2]| [p[0] * q[0], p[0] * q[1] + p[1] * q[0], p[1] * q[1]];
    let (x, y, z) = (mul(n(0), d(1)), mul(n(1), d(0)), mul(d(0), d(1)));
    let q: Vec<F> = (0..3).map(|e| x[e] - y[e] + (b[1] - b[0]) * z[e]).collect();
    let root = sqrt(q[1] * q[1] - F::from_canonical_u64(4) * q[2] * q[0])?;
    let xi = (root - q[1]) * (q[2] + q[2]).try_inverse()?;
    val[i] = xi;
    val[j] = (xi + a[0]) * (left[0] * (xi + a[0]) - F::ONE).try_inverse()? - b[0];
    for c in 0..2 { if sum(&val, c)? != want[c] { return None; } }
    for (row, x) in v["public_sub_table_values"][PUB][s].as_array_mut()?.iter_mut().zip(&val) { row[0] = field(*x).into(); }
    Some(Done { what: format!("public rows {i}, {j} and {k} to the same sum"), shape: true, class: "forged public rows" })
}
fn exchange(v: &mut Value, r: &mut Rng) -> Option<Done> {
    let a = v["proofs"].as_array_mut()?;
    let (i, j) = (r.below(a.len()), r.below(a.len()));
    a.swap(i, j);
    Some(Done { what: format!("tables {i} and {j} exchanged"), shape: false, class: "tables exchanged" })
}
fn spoil(v: &mut Value, r: &mut Rng, batch: bool, ch: &[(F, F)]) -> Option<Done> {
    match r.below(20) {
        0..=8 => word(v, r, batch),
        9..=12 => list(v, r, batch),
        13 | 14 => hand(v, r),
        15 | 16 => publics(v, r),
        17 | 18 => forge(v, r, ch),
        _ => exchange(v, r),
    }
}

// ---- the verifiers --------------------------------------------------------------------

fn ok(p: Result<anyhow::Result<()>, String>) -> Result<(), String> {
    match p { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("{e:#}")), Err(e) => Err(format!("panic: {e}")) }
}
fn native(stark: &Stk, p: All) -> Result<(), String> { ok(guarded(|| verify_proof(stark, p, &fast_test_config()))) }
fn native_batch(stark: &Stk, p: Batch, d: &TableKindArray<usize>) -> Result<(), String> { ok(guarded(|| batch_verify_proof(stark, &PUBLIC_TABLE_KINDS, p, &fast_test_config(), d))) }

type One = Arc<MozakStarkVerifierCircuit<F, C, D>>;
type Many = Arc<MozakBatchStarkVerifierCircuit<F, C, D>>;
#[derive(Default)]
struct Circuits { one: Mutex<HashMap<Vec<usize>, One>>, many: Mutex<HashMap<Vec<usize>, Many>> }
fn key(d: &TableKindArray<usize>) -> Vec<usize> { d.iter().copied().collect() }
impl Circuits {
    fn one(&self, stark: &Stk, d: &TableKindArray<usize>) -> One {
        if let Some(c) = self.one.lock().unwrap().get(&key(d)) { return c.clone(); }
        let c = Arc::new(recursive_mozak_stark_circuit::<F, C, D>(stark, d, &fast_test_circuit_config(), &fast_test_config()));
        self.one.lock().unwrap().insert(key(d), c.clone());
        c
    }
    fn many(&self, stark: &Stk, d: &TableKindArray<usize>) -> Many {
        if let Some(c) = self.many.lock().unwrap().get(&key(d)) { return c.clone(); }
        let c = Arc::new(recursive_batch_stark_circuit::<F, C, D>(stark, d, &PUBLIC_TABLE_KINDS, &fast_test_circuit_config(), &fast_test_config()));
        self.many.lock().unwrap().insert(key(d), c.clone());
        c
    }
}
fn recursive(c: &One, p: &All) -> Result<Vec<F>, String> {
    let mut pis = vec![];
    ok(guarded(|| c.prove(p).and_then(|q| { pis = q.public_inputs.clone(); c.circuit.verify(q) }))).map(|()| pis)
}
fn recursive_batch(c: &Many, p: &Batch) -> Result<Vec<F>, String> {
    let mut pis = vec![];
    ok(guarded(|| c.prove(p).and_then(|q| { pis = q.public_inputs.clone(); c.circuit.verify(q) }))).map(|()| pis)
}

// ---- the cases ------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { p: Prog, seeds: Vec<u64>, batch: bool }
fn cases(n: usize, max: usize) -> BoxedStrategy<Case> {
    (tame_progs(max), prop::collection::vec(any::<u64>(), 1..n), any::<bool>()).prop_map(|(p, seeds, batch)| Case { p, seeds, batch }).boxed()
}
fn timing() -> TimingTree { TimingTree::default() }

/// A proof of either sort.
enum Proof { One(All), Many(Batch, TableKindArray<usize>) }
impl Proof {
    fn value(&self) -> Value { match self { Proof::One(p) => serde_json::to_value(p), Proof::Many(p, _) => serde_json::to_value(p) }.unwrap() }
    fn read(&self, v: &Value) -> Result<Proof, String> {
        guarded(|| match self {
            Proof::One(_) => serde_json::from_value(v.clone()).map(Proof::One).map_err(|e| e.to_string()),
            Proof::Many(_, d) => serde_json::from_value(v.clone()).map(|p| Proof::Many(p, *d)).map_err(|e| e.to_string()),
        }).unwrap_or_else(Err)
    }
    fn verify(&self, stark: &Stk) -> Result<(), String> {
        match self { Proof::One(p) => native(stark, p.clone()), Proof::Many(p, d) => native_batch(stark, p.clone(), d) }
    }
    fn publics(&self) -> (&PublicInputs<F>, [u8; 32], &TableKindArray<Vec<Vec<Vec<F>>>>) {
        match self {
            Proof::One(p) => (&p.public_inputs, p.program_id.inner(), &p.public_sub_table_values),
            Proof::Many(p, _) => (&p.public_inputs, p.program_id.inner(), &p.public_sub_table_values),
        }
    }
    /// the challenges rows are combined with, before anything else is said
    fn challenges(&self) -> Vec<(F, F)> {
        let mut ch = Challenger::<F, H>::new();
        match self {
            Proof::One(p) => p.proofs.iter().for_each(|p| ch.observe_cap::<H>(&p.trace_cap)),
            Proof::Many(p, _) => {
                for k in PUBLIC_TABLE_KINDS { ch.observe_cap::<H>(&p.proofs[k].trace_cap); }
                ch.observe_cap::<H>(&p.batch_stark_proof.trace_cap);
            }
        }
        (0..2).map(|_| { let b = ch.get_challenge(); (b, ch.get_challenge()) }).collect()
    }
}
/// Proves a run; what the verifier is to learn.
struct Made { proof: Proof, entry: F, tapes: [[u8; 32]; 2], id: [u8; 32] }
fn make(rules: &Rules, p: &Prog, batch: bool) -> Result<Option<Made>, Fail> {
    let (m, program, state) = drive::setup(p);
    let Ok(Ok(record)) = guarded(|| vm::step(&program, state)) else { return Ok(None) };
    if c16::limits(&record).any() { return Ok(None); }
    let config = fast_test_config();
    let pi = public_inputs(&program);
    let entry = pi.entry_point;
    let fail = |e: anyhow::Error| Fail::from(format!("proving failed: {e:#}"));
    let (proof, id) = if batch {
        let (p, d) = batch_prove::<F, C, D>(&program, &record, rules.stark, &PUBLIC_TABLE_KINDS, &config, pi, &mut timing()).map_err(fail)?;
        let id = get_program_id::<F, C, D>(entry, &p.proofs[K::Program].trace_cap, &p.proofs[K::ElfMemoryInit].trace_cap).inner();
        (Proof::Many(p, d), id)
    } else {
        let traces = generate_traces::<F, D>(&program, &record, &mut timing());
        let p: All = prove_with_traces(rules.stark, &config, pi, &traces, &mut timing()).map_err(fail)?;
        let id = get_program_id::<F, C, D>(entry, &p.proofs[K::Program].trace_cap, &p.proofs[K::ElfMemoryInit].trace_cap).inner();
        (Proof::One(p), id)
    };
    Ok(Some(Made { proof, entry, tapes: [m.tapes.ev_commit, m.tapes.cl_commit], id }))
}

/// Whatever is changed in a proof, it is refused.
fn tampered(rules: &Rules, c: &Case) -> Verdict {
    let Some(m) = make(rules, &c.p, c.batch)? else { return Ok(Obs::new(false)) };
    let v = m.proof.value();
    let again = m.proof.read(&v).map_err(|e| Fail::from(format!("a proof cannot be read back: {e}")))?;
    ensure_that!(again.value() == v, "a proof read back is another");
    again.verify(rules.stark).map_err(|e| Fail::from(format!("an honest proof is refused: {e}")))?;
    let (pi, id, sub) = m.proof.publics();
    ensure_that!(pi.entry_point == m.entry && id == m.id, "the proof is of another program");
    for (i, tape) in m.tapes.iter().enumerate() {
        let got: Vec<u64> = sub[K::TapeCommitments][i].iter().map(|r| field(r[0])).collect();
        ensure_that!(got == tape.map(u64::from), "public table {i} is {got:?}, the tape is {tape:?}");
    }
    let ch = m.proof.challenges();
    let mut obs = Obs::new(false);
    for s in &c.seeds {
        let mut w = v.clone();
        let Some(done) = spoil(&mut w, &mut Rng(*s), c.batch, &ch) else { continue };
        if w == v { continue; }
        if let Ok(q) = m.proof.read(&w) {
            // a number can be written in more than one way
            if q.value() == v { continue; }
            ensure_that!(q.verify(rules.stark).is_err(), "accepted with {}{}", done.what, if c.batch { " (batch proof)" } else { "" });
        }
        obs.nontrivial = true;
        obs = obs.class(true, done.class);
    }
    Ok(obs.class(c.batch, "batch proof"))
}

/// The circuit accepts what the verifier accepts, and says what it is about.
fn circuits(rules: &Rules, cs: &Circuits, c: &Case) -> Verdict {
    let Some(m) = make(rules, &c.p, c.batch)? else { return Ok(Obs::new(false)) };
    let run = |p: &Proof| match (p, &m.proof) {
        (Proof::One(p), Proof::One(h)) => recursive(&cs.one(rules.stark, &h.degree_bits(&fast_test_config())), p),
        (Proof::Many(p, _), Proof::Many(_, d)) => recursive_batch(&cs.many(rules.stark, d), p),
        _ => unreachable!(),
    };
    let pis = run(&m.proof).map_err(|e| Fail::from(format!("the circuit refuses an honest proof: {e}")))?;
    let pis: [F; VM_PUBLIC_INPUT_SIZE] = pis.try_into().map_err(|e: Vec<F>| Fail::from(format!("{} public inputs", e.len())))?;
    let pis: &VMRecursiveProofPublicInputs<F> = &pis.into();
    ensure_that!(pis.entry_point == m.entry, "the circuit says that the entry point is {}", pis.entry_point);
    ensure_that!(pis.program_hash_as_bytes == m.id.map(F::from_canonical_u8), "the circuit says that the program is {:?}", pis.program_hash_as_bytes);
    ensure_that!(pis.event_commitment_tape == m.tapes[0].map(F::from_canonical_u8), "the circuit says that the events are {:?}, not {:?}", pis.event_commitment_tape, m.tapes[0]);
    ensure_that!(pis.castlist_commitment_tape == m.tapes[1].map(F::from_canonical_u8), "the circuit says that the cast list is {:?}, not {:?}", pis.castlist_commitment_tape, m.tapes[1]);
    let v = m.proof.value();
    let ch = m.proof.challenges();
    let mut obs = Obs::new(true);
    for s in &c.seeds {
        let mut w = v.clone();
        let Some(done) = spoil(&mut w, &mut Rng(*s), c.batch, &ch) else { continue };
        let Ok(q) = m.proof.read(&w) else { continue };
        if q.value() == v || !done.shape { continue; }
        ensure_that!(run(&q).is_err(), "the circuit accepts with {}{}", done.what, if c.batch { " (batch proof)" } else { "" });
        obs = obs.class(true, done.class);
    }
    Ok(obs.class(c.batch, "batch proof"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cheat { p: Prog, cells: Vec<(u8, u16, u16, u64)>, entry: Option<u32>, seeds: Vec<u64> }
fn cheats() -> BoxedStrategy<Cheat> {
    (tame_progs(4), prop::collection::vec((0u8..30, any::<u16>(), any::<u16>(), prop_oneof![Just(1u64), Just(P - 1), 0..P]), 1..3), prop::option::weighted(0.1, any::<u32>()), prop::collection::vec(any::<u64>(), 0..4))
        .prop_map(|(p, cells, entry, seeds)| Cheat { p, cells, entry, seeds }).boxed()
}
/// A trace that breaks a rule cannot be proved, whatever is done to the proof afterwards.
fn cheating(rules: &Rules, cs: &Circuits, c: &Cheat) -> Verdict {
    let (_, program, state) = drive::setup(&c.p);
    let Ok(Ok(record)) = guarded(|| vm::step(&program, state)) else { return Ok(Obs::new(false)) };
    if c16::limits(&record).any() { return Ok(Obs::new(false)); }
    let mut traces = generate_traces::<F, D>(&program, &record, &mut timing());
    let mut pi = public_inputs(&program);
    if let Some(e) = c.entry { pi.entry_point = F::from_canonical_u32(e); }
    else {
        for (t, r, col, x) in &c.cells {
            let t = traces.iter_mut().nth(*t as usize).unwrap();
            let col = *col as usize % t.len();
            let r = *r as usize % t[col].values.len();
            t[col].values[r] += F::from_canonical_u64(*x);
        }
    }
    let mut w = World::from_polys(&traces.0, 0);
    w.entry = pi.entry_point;
    let bad = w.bad(rules, &Mask::default());
    if bad.is_empty() { return Ok(Obs::new(false)); }
    let entry = pi.entry_point;
    let Ok(Ok(p)) = guarded(|| prove_with_traces::<F, C, D>(rules.stark, &fast_test_config(), PublicInputs { entry_point: entry }, &traces, &mut timing())) else { return Ok(Obs::new(true).class(true, "not proved")) };
    let p = Proof::One(p);
    ensure_that!(p.verify(rules.stark).is_err(), "accepted, but {} (and {} more)", bad[0], bad.len() - 1);
    let (v, ch) = (p.value(), p.challenges());
    for s in &c.seeds {
        let mut w = v.clone();
        let mut r = Rng(*s);
        let done = if r.below(2) == 0 { hand(&mut w, &mut r) } else { spoil(&mut w, &mut r, false, &ch) };
        let (Some(done), Ok(q)) = (done, p.read(&w)) else { continue };
        ensure_that!(q.verify(rules.stark).is_err(), "accepted with {}, but {}", done.what, bad[0]);
    }
    let circuit = c.seeds.is_empty();
    if let (true, Proof::One(q)) = (circuit, &p) {
        ensure_that!(recursive(&cs.one(rules.stark, &q.degree_bits(&fast_test_config())), q).is_err(), "the circuit accepts, but {} (and {} more)", bad[0], bad.len() - 1);
    }
    let constraints = bad.iter().any(|b| matches!(b, crate::world::Bad::Constraint(..)));
    let lookups = bad.iter().any(|b| matches!(b, crate::world::Bad::Lookup(..)));
    Ok(Obs::new(true).class(circuit, "in the circuit").class(constraints && !lookups, "only constraints").class(lookups && !constraints, "only lookups").class(c.entry.is_some(), "another entry point"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct False { p: Prog, at: u16, what: u8, x: u32, seeds: Vec<u64> }
fn falses() -> BoxedStrategy<False> {
    (tame_progs(4), any::<u16>(), 0u8..4, prop_oneof![Just(1u32), Just(4), Just(0x8000_0000), any::<u32>()], prop::collection::vec(any::<u64>(), 0..4))
        .prop_map(|(p, at, what, x, seeds)| False { p, at, what, x, seeds }).boxed()
}
/// The same for a batch proof, of a record that lies.
fn false_record(rules: &Rules, cs: &Circuits, c: &False) -> Verdict {
    let (_, program, state) = drive::setup(&c.p);
    let Ok(Ok(mut record)) = guarded(|| vm::step(&program, state)) else { return Ok(Obs::new(false)) };
    if c16::limits(&record).any() || record.executed.is_empty() { return Ok(Obs::new(false)); }
    let i = c.at as usize % record.executed.len();
    let row = &mut record.executed[i];
    match c.what {
        0 => row.aux.dst_val ^= c.x,
        1 => row.aux.new_pc ^= c.x,
        2 => row.aux.op1 ^= c.x,
        _ => row.aux.op2 ^= c.x,
    }
    let Ok(w) = guarded(|| World::generate(&program, &record)) else { return Ok(Obs::new(false)) };
    let bad = w.bad(rules, &Mask::default());
    if bad.is_empty() { return Ok(Obs::new(false)); }
    let made = guarded(|| batch_prove::<F, C, D>(&program, &record, rules.stark, &PUBLIC_TABLE_KINDS, &fast_test_config(), public_inputs(&program), &mut timing()));
    let Ok(Ok((p, d))) = made else { return Ok(Obs::new(true).class(true, "not proved")) };
    let p = Proof::Many(p, d);
    ensure_that!(p.verify(rules.stark).is_err(), "accepted, but {} (and {} more)", bad[0], bad.len() - 1);
    let (v, ch) = (p.value(), p.challenges());
    for s in &c.seeds {
        let mut w = v.clone();
        let mut r = Rng(*s);
        let done = if r.below(2) == 0 { hand(&mut w, &mut r) } else { spoil(&mut w, &mut r, true, &ch) };
        let (Some(done), Ok(q)) = (done, p.read(&w)) else { continue };
        ensure_that!(q.verify(rules.stark).is_err(), "accepted with {}, but {}", done.what, bad[0]);
    }
    let circuit = c.seeds.is_empty();
    if let (true, Proof::Many(q, d)) = (circuit, &p) {
        ensure_that!(recursive_batch(&cs.many(rules.stark, d), q).is_err(), "the circuit accepts, but {} (and {} more)", bad[0], bad.len() - 1);
    }
    Ok(Obs::new(true).class(circuit, "in the circuit"))
}

// ---- constraints in and out of the circuit ----------------------------------------------

type FE = QuadraticExtension<F>;
fn lift(a: F) -> FE { <FE as FieldExtension<D>>::from_basefield(a) }
fn parts(a: &FE) -> [F; 2] { <FE as FieldExtension<D>>::to_basefield_array(a) }
fn join(a: [F; 2]) -> FE { <FE as FieldExtension<D>>::from_basefield_array(a) }
type Frame = Box<dyn Fn(&mut Rng) -> Result<usize, String> + Send + Sync>;
fn frame<S: Stark<F, D> + Sync>(st: &'static S) -> Frame {
    let mut b = CircuitBuilder::<F, D>::new(fast_test_circuit_config());
    let n = 2 * S::COLUMNS + S::PUBLIC_INPUTS + 3;
    let ts = b.add_virtual_extension_targets(n);
    let alphas = b.add_virtual_targets(2);
    let (lv, rest) = ts.split_at(S::COLUMNS);
    let (nv, rest) = rest.split_at(S::COLUMNS);
    let (pis, sel) = rest.split_at(S::PUBLIC_INPUTS);
    let vars = S::EvaluationFrameTarget::from_values(lv, nv, pis);
    let zero = b.zero_extension();
    let mut rc = RecursiveConstraintConsumer::new(zero, alphas.clone(), sel[0], sel[1], sel[2]);
    st.eval_ext_circuit(&mut b, &vars, &mut rc);
    for a in rc.accumulators() { b.register_public_inputs(&a.0); }
    let data: CircuitData<F, C, D> = b.build();
    Box::new(move |r| {
        let base = r.below(3) == 0;
        let few = r.below(2) == 0;
        let mut x = |r: &mut Rng| if few { F::from_canonical_u64(r.word()) } else { F::from_canonical_u64(r.next() % P) };
        let vals: Vec<FE> = (0..n).map(|_| join([x(r), if base { F::ZERO } else { x(r) }])).collect();
        let al: Vec<F> = (0..2).map(|_| F::from_canonical_u64(r.next() % P)).collect();
        let (lv, rest) = vals.split_at(S::COLUMNS);
        let (nv, rest) = rest.split_at(S::COLUMNS);
        let (pis, sel) = rest.split_at(S::PUBLIC_INPUTS);
        let mut c = ConstraintConsumer::<FE>::new(al.iter().map(|a| lift(*a)).collect(), sel[0], sel[1], sel[2]);
        st.eval_ext(&S::EvaluationFrame::<FE, FE, D>::from_values(lv, nv, pis), &mut c);
        let want: Vec<F> = c.accumulators().iter().flat_map(parts).collect();
        if base {
            let d = |v: &[FE]| v.iter().map(|x| parts(x)[0]).collect::<Vec<F>>();
            let s = d(sel);
            let mut c = ConstraintConsumer::<F>::new(al.clone(), s[0], s[1], s[2]);
            st.eval_packed_base(&S::EvaluationFrame::<F, F, 1>::from_values(&d(lv), &d(nv), &d(pis)), &mut c);
            let got: Vec<F> = c.accumulators().iter().flat_map(|a| [*a, F::ZERO]).collect();
            if got != want { return Err("the base field".into()); }
        }
        let mut w = PartialWitness::new();
        for (t, v) in ts.iter().zip(&vals) { w.set_extension_target(*t, *v); }
        for (t, v) in alphas.iter().zip(&al) { w.set_target(*t, *v); }
        let got = data.prove(w).map_err(|e| e.to_string())?.public_inputs;
        if got != want { return Err("the circuit".into()); }
        Ok(want.iter().filter(|x| **x != F::ZERO).count())
    })
}

// ---- what binds public values ------------------------------------------------------------

/// What the proof's columns are compared with, for the public values of a table.
type Sums = Box<dyn Fn(&[Vec<Vec<F>>], F, F) -> Result<Vec<F>, String> + Send + Sync>;
fn sums(rules: &Rules) -> (Vec<(usize, usize)>, Sums) {
    let mut b = CircuitBuilder::<F, D>::new(fast_test_circuit_config());
    let ts: Vec<_> = rules.stark.public_sub_tables.iter().map(|t| t.to_targets(&mut b)).collect();
    let kinds: Vec<usize> = rules.subs.iter().map(|t| t.table).collect();
    let shape = ts.iter().map(|t| (t.len(), t.first().map_or(0, Vec::len))).collect();
    let ch = GrandProductChallenge { beta: b.add_virtual_target(), gamma: b.add_virtual_target() };
    for t in &ts {
        let x = reduce_public_sub_table_targets(&mut b, &ch, t);
        b.register_public_input(x);
    }
    let data: CircuitData<F, C, D> = b.build();
    (shape, Box::new(move |tables, beta, gamma| {
        let mut all: TableKindArray<Vec<Vec<Vec<F>>>> = TableKindArray(std::array::from_fn(|_| vec![]));
        for (k, t) in kinds.iter().zip(tables) { all.0[*k].push(t.clone()); }
        let set = GrandProductChallengeSet { challenges: vec![GrandProductChallenge { beta, gamma }] };
        let r = reduce_public_sub_tables_values(&all, &set);
        let mut next = vec![0; r.0.len()];
        let native: Vec<F> = kinds.iter().map(|k| { next[*k] += 1; r.0[*k][next[*k] - 1] }).collect();
        let mut w = PartialWitness::new();
        w.set_target(ch.beta, beta);
        w.set_target(ch.gamma, gamma);
        if ts.iter().zip(tables).all(|(t, v)| t.len() == v.len()) {
            for (t, v) in ts.iter().zip(tables).flat_map(|(t, v)| t.iter().zip(v)) { for (t, v) in t.iter().zip(v) { w.set_target(*t, *v); } }
            let circuit = data.prove(w).map_err(|e| e.to_string())?.public_inputs;
            if circuit != native { return Err(format!("the circuit makes {circuit:?} of them, the verifier {native:?}")); }
        }
        Ok(native)
    }))
}
/// Other values, or the same in another order, come to another sum, whatever they are: only
/// luck with the challenges makes two lists of public values alike.
fn binding((shape, sums): &(Vec<(usize, usize)>, Sums), seed: u64) -> Verdict {
    let mut r = Rng(seed);
    let few = r.below(3) == 0;
    let tables: Vec<Vec<Vec<F>>> = shape.iter().map(|(n, m)| (0..*n).map(|_| (0..*m).map(|_| F::from_canonical_u64(r.next() % if few { 2 } else { 256 })).collect()).collect()).collect();
    let (beta, gamma) = (F::from_canonical_u64(r.next() % P), F::from_canonical_u64(r.next() % P));
    let was = sums(&tables, beta, gamma).map_err(Fail::from)?;
    let mut x = tables.clone();
    let s = r.below(x.len());
    let n = x[s].len();
    let (i, j) = (r.below(n), r.below(n));
    let (class, what) = match r.below(6) {
        0 => { x[s].swap(i, j); ("order", "two rows exchanged") }
        1 => { x[s].rotate_left(i); ("order", "turned") }
        2 => { x[s].reverse(); ("order", "back to front") }
        3 => { let v = F::from_canonical_u64(r.word()); let k = r.below(x[s][i].len()); x[s][i][k] = v; ("value", "another value") }
        4 => { let k = r.below(x[s][i].len()); x[s][i][k] += F::ONE; if i != j { x[s][j][k] -= F::ONE; } ("value", "one more in a row, one less in another") }
        _ => { x[s].pop(); ("value", "a row less") }
    };
    let new = x != tables;
    if new { ensure_that!(sums(&x, beta, gamma).map_err(Fail::from)? != was, "public values {s} {what} come to the same sum: {:?} and {:?}", tables[s], x[s]); }
    Ok(Obs::new(new).class(new && class == "order", "order").class(new && class == "value", "values"))
}

pub fn check() -> ! {
    let mut c = Check::new("C21");
    let rules = Rules::new();
    let cs = Circuits::default();
    c.assume("Hashes do not collide and challenges cannot be guessed: a forgery is one that takes no luck.");
    c.assume("Inside a circuit, plonky2's gadget for the opening proofs is a stand-in that evaluates the native verifier.");
    let frames: Vec<Frame> = crate::world::frames(rules.stark);
    let rule = "a value of the constraints is not zero";
    c.run("constraints", rule, c.cases(6000, 20), || (0usize..30, any::<u64>()), |(t, s)| {
        match frames[*t](&mut Rng(*s)) {
            Ok(n) => Ok(Obs::new(n > 0)),
            Err(e) => Err(Fail::from(format!("{:?}: {e} has other constraints", crate::world::KINDS[*t]))),
        }
    });
    let sums = sums(&rules);
    c.run("binding", "the public values differ", c.cases(2000, 12), any::<u64>, |s| binding(&sums, *s));
    c.run("tampered", "a changed proof is offered", c.cases(120, 12), || cases(40, 6), |x| tampered(&rules, x));
    c.run("circuits", "the circuit of an honest proof is run", c.cases(40, 12), || cases(8, 4), |x| circuits(&rules, &cs, x));
    c.run("cheating", "the trace breaks a rule", c.cases(300, 12), cheats, |x| cheating(&rules, &cs, x));
    c.run("false records", "the trace breaks a rule", c.cases(200, 12), falses, |x| false_record(&rules, &cs, x));
    c.finish()
}
pub fn frame_of<S: Stark<F, D> + Sync>(st: &'static S) -> Frame { frame(st) }
pub type AnyFrame = Frame;
