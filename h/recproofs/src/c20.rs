//! C20: a block is proved exactly for what its transactions ask, on top of the block before.
use std::collections::BTreeMap;
use std::sync::OnceLock;

use h_common::{ensure_same, ensure_that, guarded, Check, Fail, Obs, Verdict};
use itertools::Either;
use mozak_node::block_proposer::block::{AuxBlockData, Blocks};
use mozak_node::block_proposer::matches::{AuxMatchesData, Matches};
use mozak_node::block_proposer::state::{AuxStateData, Operation, State};
use mozak_node::block_proposer::transactions::{AuxTransactionData, TransactionAccumulator};
use mozak_node::block_proposer::Address;
use mozak_recproofs::circuits::verify_program::core::ProgramPublicIndices;
use mozak_recproofs::circuits::{build_event_root, merge, state_update as su, verify_block, verify_program, verify_tx};
use mozak_recproofs::indices::{ArrayTargetIndex, BoolTargetIndex, HashOutTargetIndex};
use mozak_recproofs::Event;
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, EventType, Poseidon2Hash, ProgramIdentifier};
use plonky2::gates::noop::NoopGate;
use plonky2::hash::hash_types::HashOutTarget;
use plonky2::iop::target::{BoolTarget, Target};
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::CircuitData;
use plonky2::plonk::proof::ProofWithPublicInputs;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::c18::{empty, hashes, root, sparse};
use crate::c19::{forge, objection, value, word, Ev, One};
use crate::world::*;

/// What stands for the proof of a program: it may claim any events, calls and cast, but only its own name.
struct Program { id: V, name: [Target; 4], present: BoolTarget, events: HashOutTarget, calls: [Target; 4], cast: HashOutTarget, circuit: CircuitData<F, C, D> }
#[derive(Clone, Copy)]
struct Claim { events: Option<H>, calls: V, cast: H }
impl Program {
    fn new(id: V) -> Self {
        let mut b = CircuitBuilder::<F, D>::new(CONFIG.clone());
        let name: [Target; 4] = b.add_virtual_target_arr();
        let present = b.add_virtual_bool_target_safe();
        let events = b.add_virtual_hash();
        let calls: [Target; 4] = b.add_virtual_target_arr();
        let cast = b.add_virtual_hash();
        b.register_public_inputs(&name);
        b.register_public_input(present.target);
        b.register_public_inputs(&events.elements);
        b.register_public_inputs(&calls);
        b.register_public_inputs(&cast.elements);
        for (n, v) in name.into_iter().zip(fs(id)) {
            let v = b.constant(v);
            b.connect(n, v);
        }
        b.add_gate(NoopGate, vec![]);
        while b.num_gates() < 8 { b.add_gate(NoopGate, vec![]); }
        Program { id, name, present, events, calls, cast, circuit: b.build() }
    }
    fn indices(&self) -> ProgramPublicIndices {
        let p = &self.circuit.prover_only.public_inputs;
        ProgramPublicIndices {
            program_hash: ArrayTargetIndex::new(p, &self.name),
            events_present: BoolTargetIndex::new(p, self.present),
            event_root: HashOutTargetIndex::new(p, self.events),
            call_list: ArrayTargetIndex::new(p, &self.calls),
            cast_root: HashOutTargetIndex::new(p, self.cast),
        }
    }
    fn prove(&self, c: &Claim) -> ProofWithPublicInputs<F, C, D> {
        let mut w = PartialWitness::new();
        w.set_bool_target(self.present, c.events.is_some());
        w.set_hash_target(self.events, c.events.unwrap_or_default());
        w.set_target_arr(&self.calls, &fs(c.calls));
        w.set_hash_target(self.cast, c.cast);
        self.circuit.prove(w).unwrap()
    }
}

const DEPTHS: [usize; 2] = [2, 63];
struct Aux { tx: AuxTransactionData, md: AuxMatchesData, su: Vec<AuxStateData>, blocks: Vec<AuxBlockData>, own: Own }
/// The same circuits once more, to look at what the proposer made.
struct Own {
    merge_leaf: merge::LeafCircuit<F, C, D>,
    merge: merge::BranchCircuit<F, C, D>,
    tx: verify_tx::BranchCircuit<F, C, D>,
    md: mozak_recproofs::circuits::match_delta::BranchCircuit<F, C, D>,
    su_leaf: su::LeafCircuit<F, C, D>,
    su: Vec<su::BranchCircuit<F, C, D>>,
    blocks: Vec<verify_block::Circuit<F, C, D>>,
}
fn aux() -> &'static Aux {
    static A: OnceLock<Aux> = OnceLock::new();
    A.get_or_init(|| {
        let p = Program::new([0; 4]);
        let tx = AuxTransactionData::new(&CONFIG, &p.indices(), &p.circuit.common);
        let md = AuxMatchesData::new(&CONFIG);
        let states: Vec<_> = DEPTHS.iter().map(|d| AuxStateData::new(&CONFIG, *d)).collect();
        let blocks = states.iter().map(|s| AuxBlockData::new(&CONFIG, &tx, &md, s)).collect();
        let own = {
            let el = build_event_root::LeafCircuit::new(&CONFIG);
            let eb = build_event_root::BranchCircuit::new(&CONFIG, &el);
            let merge_leaf = merge::LeafCircuit::new(&CONFIG);
            let merge = merge::BranchCircuit::new(&CONFIG, &merge_leaf);
            let pl = verify_program::LeafCircuit::new(&CONFIG, &p.indices(), &p.circuit.common, &eb);
            let pb = verify_program::BranchCircuit::new(&CONFIG, &merge, &pl);
            let tl = verify_tx::LeafCircuit::new(&CONFIG, &pb);
            let tx = verify_tx::BranchCircuit::new(&CONFIG, &merge, &tl);
            let al = mozak_recproofs::circuits::accumulate_delta::LeafCircuit::new(&CONFIG);
            let ab = mozak_recproofs::circuits::accumulate_delta::BranchCircuit::new(&CONFIG, &al);
            let ml = mozak_recproofs::circuits::match_delta::LeafCircuit::new(&CONFIG, &ab);
            let md = mozak_recproofs::circuits::match_delta::BranchCircuit::new(&CONFIG, &ml);
            let su_leaf = su::LeafCircuit::new(&CONFIG);
            let mut su = vec![su::BranchCircuit::from_leaf(&CONFIG, &su_leaf)];
            for i in 0..DEPTHS[1] { su.push(su::BranchCircuit::from_branch(&CONFIG, &su[i])); }
            let blocks = DEPTHS.iter().map(|d| verify_block::Circuit::new(&CONFIG, &tx, &md, &su[*d])).collect();
            Own { merge_leaf, merge, tx, md, su_leaf, su, blocks }
        };
        Aux { tx, md, su: states, blocks, own }
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Change { at: u64, mode: u8, who: u8, write: Option<V>, reads: u8, ensures: u8, order: Vec<u16>, to: Vec<u8>, others: Vec<u8> }
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Block {
    changes: Vec<Change>,
    /// Programs in the cast which do nothing, and how the cast is ordered.
    extras: Vec<Vec<u8>>,
    cast_order: Vec<u16>,
    /// In what order the programs' proofs come in.
    order: Vec<u16>,
    /// A transaction without events, of that many programs, whose last proof comes in after the block.
    late: u8,
    /// A proof handed in twice.
    again: bool,
}
/// What is wrong with the last block.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Trick {
    /// An event of a program's proof differs from the one that is handed in.
    Event { at: u16, value: V },
    EventMissing { at: u16 },
    /// A program's proof claims something else.
    Claimed { at: u16, what: u8, value: V },
    /// Another program's proof.
    Impostor { at: u16, id: V },
    /// Events are matched which are not of the transactions.
    Matched { at: u16, what: u8, value: V },
    /// The object becomes something else than the events ask for.
    Became { at: u16, what: u8, value: V },
    /// The tree changes otherwise.
    Tree { at: u64, obj: Option<Obj>, instead: bool },
    Height(u64),
    /// The block before is another.
    Before { state: V, base: bool, height: u64 },
    Forged { which: u8, at: u16, to: u64 },
    /// All events are of objects above the tree's addresses.
    Lifted(u64),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case { deep: bool, ids: Vec<V>, genesis: Vec<(u64, u8, V, u64)>, blocks: Vec<Block>, trick: Option<Trick> }

#[derive(Debug, Clone)]
struct Tx { cast: Vec<V>, events: BTreeMap<usize, Vec<(u64, Ev)>>, calls: V }

fn canonical(a: u64, e: &Ev) -> CanonicalEvent {
    let type_ = [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner][e.ty as usize];
    CanonicalEvent { address: Address(a).to_state(), type_, value: Poseidon2Hash::from(e.value) }
}
fn pid(id: V) -> ProgramIdentifier { ProgramIdentifier(id.into()) }
fn h4(h: Poseidon2Hash) -> H { fs(h.to_u64s()).into() }
/// Pairwise, as full as possible on the left.
fn balanced(v: &[H], pair: &dyn Fn(H, H) -> H) -> H {
    if v.len() == 1 { return v[0]; }
    let cut = v.len().next_power_of_two() / 2;
    pair(balanced(&v[..cut], pair), balanced(&v[cut..], pair))
}
type Roots = BTreeMap<u64, H>;
fn together(mut l: Roots, r: &Roots) -> Roots {
    for (a, h) in r { l.entry(*a).and_modify(|x| *x = pair(*x, *h)).or_insert(*h); }
    l
}
fn top(r: &Roots) -> Option<H> { sparse(&r.iter().map(|(a, h)| (*a, *h)).collect::<Vec<_>>(), 64) }
fn event(a: u64, e: &Ev) -> Event<F> { e.real(a) }
/// The events of each object by one program, which are together in its tree.
fn of_program(events: &[(u64, Ev)]) -> Roots {
    let mut by: BTreeMap<u64, Vec<H>> = BTreeMap::new();
    for (a, e) in events { by.entry(*a).or_default().push(event(*a, e).hash()); }
    by.into_iter().map(|(a, v)| (a, balanced(&v, &pair))).collect()
}
fn of_cast(v: &[Roots]) -> Roots {
    if v.len() == 1 { return v[0].clone(); }
    let cut = v.len().next_power_of_two() / 2;
    together(of_cast(&v[..cut]), &of_cast(&v[cut..]))
}
impl Tx {
    fn of(&self, i: usize) -> &[(u64, Ev)] { self.events.get(&i).map_or(&[], |v| v) }
    fn roots(&self) -> Roots { of_cast(&(0..self.cast.len()).map(|i| of_program(self.of(i))).collect::<Vec<_>>()) }
    fn cast_root(&self) -> H { balanced(&self.cast.iter().map(|v| H::from(fs(*v))).collect::<Vec<_>>(), &bytes_pair) }
    fn ids(&self) -> Vec<ProgramIdentifier> { self.cast.iter().map(|v| pid(*v)).collect() }
    fn claim(&self, i: usize) -> Claim {
        let e = self.of(i);
        let events = (!e.is_empty()).then(|| h4(merkleize(e.iter().map(|(a, e)| (*a, canonical(*a, e).canonical_hash())).collect())));
        Claim { events, calls: self.calls, cast: self.cast_root() }
    }
}

/// The objects' changes, the transactions that ask for them, and the objects after the block.
fn plan(b: &Block, n: usize, ids: &[V], before: &BTreeMap<u64, Obj>, height: u64) -> (BTreeMap<u64, One>, Vec<Tx>) {
    let mut ones: BTreeMap<u64, One> = BTreeMap::new();
    let mut txs: Vec<(Vec<V>, BTreeMap<V, Vec<(u64, Ev)>>)> = b.extras.iter().map(|x| (x.iter().map(|i| ids[*i as usize % ids.len()]).collect(), BTreeMap::new())).collect();
    for c in &b.changes {
        if ones.contains_key(&c.at) { continue; }
        let old = before.get(&c.at).copied().unwrap_or_default();
        let some = |i: u8| ids[1 + i as usize % (ids.len() - 1)];
        let mut new = old;
        let mut events = vec![];
        let exists = old.owner != [0; 4];
        if !exists { new.owner = some(c.who); }
        if exists && c.mode < 2 && old.credits == 0 { new.owner = [0; 4]; }
        if new.owner != old.owner {
            events.push(Ev { ty: 3, owner: old.owner, value: new.owner });
            events.push(Ev { ty: 4, owner: new.owner, value: old.owner });
        }
        let data = if new.owner == [0; 4] { (old.data != [0; 4]).then_some([0; 4]) } else { c.write };
        if let Some(v) = data {
            new.data = v;
            events.push(Ev { ty: 0, owner: old.owner, value: v });
        }
        let other = |i: u8| ids[c.others[i as usize] as usize % ids.len()];
        for i in 0..c.reads { events.push(Ev { ty: 2, owner: other(i), value: old.data }); }
        for i in 0..c.ensures { events.push(Ev { ty: 1, owner: other(3 - i), value: new.data }); }
        if events.is_empty() { events.push(Ev { ty: 2, owner: other(0), value: old.data }); }
        let touched = events.iter().any(|e| e.ty == 0 || e.ty == 3);
        new.updated = if new.owner == [0; 4] { 0 } else if touched { height } else { old.updated };
        let mut keyed: Vec<(u16, Ev)> = c.order.iter().copied().cycle().zip(events.clone()).collect();
        keyed.sort_by_key(|x| x.0);
        for ((_, e), t) in keyed.into_iter().zip(c.to.iter().cycle()) {
            let t = *t as usize % txs.len();
            txs[t].0.push(e.owner);
            txs[t].1.entry(e.owner).or_default().push((c.at, e));
        }
        ones.insert(c.at, One { addr: c.at, height, old, new, events, stray: None, shape: vec![], forged: None });
    }
    let txs = txs.into_iter().enumerate().filter(|(_, t)| !t.0.is_empty()).map(|(k, (cast, mut events))| {
        let mut keyed: Vec<(u16, V)> = b.cast_order.iter().copied().cycle().skip(k).zip(cast.into_iter().collect::<std::collections::BTreeSet<V>>()).collect();
        keyed.sort();
        let cast: Vec<V> = keyed.into_iter().map(|x| x.1).collect();
        for v in events.values_mut() { v.sort_by_key(|x| x.0); }
        let events = cast.iter().enumerate().filter_map(|(i, c)| events.remove(c).map(|e| (i, e))).collect();
        Tx { cast, events, calls: [n as u64, k as u64, 7, P - 1] }
    }).collect();
    (ones, txs)
}

/// The proof that the tree changes so, leaf by leaf, whatever the addresses they claim.
fn tree(before: &BTreeMap<u64, Obj>, after: &BTreeMap<u64, Obj>, touched: &BTreeMap<u64, One>, depth: usize, lift: u64) -> Result<su::BranchProof<F, C, D>, String> {
    let own = &aux().own;
    let hash = |m: &BTreeMap<u64, Obj>, a: u64| m.get(&a).map_or(empty(0), |o| o.hash());
    let mut leaves = vec![];
    for a in 0..1u64 << (depth + 1) {
        leaves.push(guarded(|| own.su_leaf.prove(hash(before, a), hash(after, a), touched.contains_key(&a).then_some((a + lift) % (P - 1))))?.map_err(|e| e.to_string())?);
    }
    let mut row = vec![];
    for c in leaves.chunks(2) { row.push(guarded(|| own.su[0].prove(&c[0], &c[1]))?.map_err(|e| e.to_string())?); }
    for h in 1..=depth {
        let mut next = vec![];
        for c in row.chunks(2) { next.push(guarded(|| own.su[h].prove(&c[0], &c[1]))?.map_err(|e| e.to_string())?); }
        row = next;
    }
    Ok(row.pop().unwrap())
}

fn history(c: &Case) -> Verdict {
    let a = aux();
    let deep = usize::from(c.deep);
    let depth = DEPTHS[deep];
    let ids: Vec<V> = std::iter::once([0; 4]).chain(c.ids.iter().copied().filter(|v| *v != [0; 4]).collect::<std::collections::BTreeSet<V>>()).collect();
    if ids.len() < 2 { return Ok(Obs::default()); }
    let programs: BTreeMap<V, Program> = ids.iter().map(|id| (*id, Program::new(*id))).collect();
    let mut state = State::new(&a.su[deep], depth);
    let mut objs: BTreeMap<u64, Obj> = BTreeMap::new();
    for (at, who, data, updated) in &c.genesis { objs.insert(*at, Obj { owner: ids[1 + *who as usize % (ids.len() - 1)], updated: *updated, credits: 0, data: *data }); }
    for (at, o) in &objs { state.apply_operation(Address(*at), Operation::Upsert(o.real())); }
    state.finalize();
    let base = root(&hashes(&objs), depth + 1);
    let circuit = &a.own.blocks[deep];
    let first = circuit.prove_base(base).map_err(|e| e.to_string())?;
    circuit.verify_base(first.clone()).map_err(|e| format!("the base: {e}"))?;
    let mut prev: Either<verify_block::BaseProof<F, C, D>, verify_block::BlockProof<F, C, D>> = Either::Left(first);
    let mut blocks = Blocks::new(&a.blocks[deep], base);
    let mut matches = Matches::new(&a.md);
    let mut obs = Obs::default();
    let mut txs_acc = TransactionAccumulator::new(&a.tx);
    let mut pending: Option<Tx> = None;

    for (n, b) in c.blocks.iter().enumerate() {
        let height = n as u64 + 1;
        let (mut ones, txs) = plan(b, n, &ids, &objs, height);
        let trick = if n + 1 == c.blocks.len() { c.trick.as_ref() } else { None };
        let lift = match trick { Some(Trick::Lifted(k)) if !c.deep => k % (1 << 60) * 8, _ => 0 };
        // Whether the block is wrong, so that nobody may accept it, and whether it is refused already.
        let mut wrong = lift != 0;
        let all = ones.values().flat_map(|o| o.events.iter().map(|e| (o.addr, e.clone()))).count();
        ensure_that!(all > 0 && ones.values().all(|o| objection(o).is_none()), "bad plan {ones:?}");

        // Proofs come in, in any order but one.
        let raised = |v: &[(u64, Ev)]| -> Vec<(u64, Ev)> { v.iter().map(|(a, e)| (a + lift, e.clone())).collect() };
        let txs: Vec<Tx> = txs.into_iter().map(|t| Tx { events: t.events.iter().map(|(i, v)| (*i, raised(v))).collect(), ..t }).collect();
        let mut order: Vec<(u16, usize, usize)> = b.order.iter().copied().cycle().zip(txs.iter().enumerate().flat_map(|(k, t)| (0..t.cast.len()).map(move |i| (k, i)))).map(|(o, (k, i))| (o, k, i)).collect();
        order.sort();
        let members = order.len();
        let mut left: Vec<usize> = txs.iter().map(|t| t.cast.len()).collect();
        let (mut done, mut matched, mut finished): (Option<Roots>, Roots, bool) = (None, Roots::new(), false);
        let hand_in = |acc: &mut TransactionAccumulator<'_>, t: &Tx, i: usize, trick: Option<&Trick>, wrong: &mut bool| {
            let mut claim = t.claim(i);
            let mut program = &programs[&t.cast[i]];
            let other;
            let mut events: Vec<(u64, Ev)> = t.of(i).to_vec();
            match trick {
                Some(Trick::Event { at, value }) if !events.is_empty() => {
                    let k = *at as usize % events.len();
                    *wrong |= events[k].1.value != *value;
                    events[k].1.value = *value;
                }
                Some(Trick::EventMissing { at }) if !events.is_empty() => {
                    events.remove(*at as usize % events.len());
                    *wrong = true;
                }
                Some(Trick::Claimed { what, value, .. }) => {
                    let was = claim;
                    match what {
                        0 => claim.events = Some(fs(*value).into()),
                        1 => claim.events = None,
                        2 if t.cast.len() > 1 => claim.calls = *value,
                        _ => claim.cast = fs(*value).into(),
                    }
                    *wrong |= was.events != claim.events || was.calls != claim.calls || was.cast != claim.cast;
                }
                Some(Trick::Impostor { id, .. }) => {
                    *wrong |= *id != program.id;
                    other = Program::new(*id);
                    program = &other;
                }
                _ => {}
            }
            let proof = program.prove(&claim);
            let events: Vec<CanonicalEvent> = events.iter().map(|(a, e)| canonical(*a, e)).collect();
            guarded(|| acc.ingest_program(i, &program.circuit.verifier_only, &proof, &t.ids(), &events, fs(t.calls)).map_err(|e| e.to_string()))
        };
        let refused = |wrong: bool, what: &str, e: String| if wrong { Ok(Obs::new(true).class(true, "refused early")) } else { Err(Fail::from(format!("{what}: {e}"))) };
        if let Some(t) = pending.take() {
            match hand_in(&mut txs_acc, &t, t.cast.len() - 1, None, &mut wrong) {
                Ok(Ok((_, true))) => {}
                other => return Err(format!("the last proof of an earlier transaction: {:?}", other.map(|r| r.map(|x| x.1))).into()),
            }
            finished = true;
            done = Some(Roots::new());
        }
        for (pos, (_, k, i)) in order.iter().copied().enumerate() {
            let t = &txs[k];
            if !finished { ensure_that!(txs_acc.finalize().is_err(), "a block without a finished transaction is finalized"); }
            let tricky = match trick {
                Some(Trick::Event { at, .. } | Trick::EventMissing { at } | Trick::Claimed { at, .. } | Trick::Impostor { at, .. }) if *at as usize % members == pos => trick,
                _ => None,
            };
            let (key, complete) = match hand_in(&mut txs_acc, t, i, tricky, &mut wrong) {
                Ok(Ok(x)) => x,
                Ok(Err(e)) | Err(e) => return refused(wrong, &format!("proof {i} of {}", t.cast.len()), e),
            };
            left[k] -= 1;
            ensure_same!(complete, left[k] == 0, "whether proof {i} completes the transaction of {}", t.cast.len());
            if !complete && b.again && !wrong {
                let mut w = false;
                let again = hand_in(&mut txs_acc, t, i, None, &mut w).map_err(|e| format!("a proof handed in twice: {e}"))?;
                ensure_that!(again.is_err(), "a proof handed in twice is taken");
                obs = obs.class(true, "twice");
            }
            if complete {
                finished = true;
                done = Some(match done { None => t.roots(), Some(d) => together(d, &t.roots()) });
                // The events are matched in the order of the cast.
                let mut of_tx = Roots::new();
                for j in 0..t.cast.len() {
                    let mut events = t.of(j).to_vec();
                    match trick {
                        Some(Trick::Matched { at, what, value }) if k == 0 && !events.is_empty() => {
                            let was = of_program(&events);
                            let x = *at as usize % events.len();
                            match what {
                                0 => events[x].1.value = *value,
                                1 => { let e = events[x].clone(); events.push(e); }
                                2 => events.reverse(),
                                _ => events[x].1.ty = if events[x].1.ty == 1 { 2 } else { 1 },
                            }
                            wrong |= was != of_program(&events);
                        }
                        _ => {}
                    }
                    let list: Vec<CanonicalEvent> = events.iter().map(|(a, e)| canonical(*a, e)).collect();
                    if list.is_empty() { continue; }
                    if let Err(e) = guarded(|| matches.ingest_events(key, &pid(t.cast[j]), &list)) { return refused(wrong, "matching the events", e); }
                    of_tx = together(of_tx, &of_program(&events));
                }
                if !of_tx.is_empty() {
                    match guarded(|| matches.ready_tx(key)) { Ok(Ok(())) => {} Ok(Err(e)) => return refused(wrong, "matching a transaction", e.to_string()), Err(e) => return refused(wrong, "matching a transaction", e) }
                }
                matched = together(matched, &of_tx);
            }
        }
        // One transaction stays open.
        if b.late > 1 && n + 1 < c.blocks.len() && ids.len() > b.late as usize {
            let t = Tx { cast: ids[..b.late as usize].to_vec(), events: BTreeMap::new(), calls: [n as u64, 99, 0, 0] };
            for i in 0..t.cast.len() - 1 {
                let (_, complete) = hand_in(&mut txs_acc, &t, i, None, &mut wrong)?.map_err(|e| format!("an open transaction: {e}"))?;
                ensure_that!(!complete, "a transaction is complete without its last proof");
            }
            pending = Some(t);
            obs = obs.class(true, "open transaction");
        }
        let done = done.unwrap();
        let tx = match guarded(|| txs_acc.finalize()) { Ok(Ok(p)) => p, Ok(Err(e)) => return refused(wrong, "the transactions", e.to_string()), Err(e) => return refused(wrong, "the transactions", e) };
        match a.own.tx.verify(tx.clone()) {
            Ok(()) => {
                ensure_that!(!matches!(trick, Some(Trick::Event { .. } | Trick::EventMissing { .. } | Trick::Claimed { .. } | Trick::Impostor { .. })) || !wrong, "a transaction is proved with a wrong program");
                ensure_same!(tx.events_present(), !done.is_empty(), "whether there are events");
                ensure_same!(tx.events(), top(&done).unwrap(), "the root of the transactions' events");
            }
            Err(e) => return refused(wrong, "the transactions do not verify", e.to_string()),
        }
        ensure_that!(txs_acc.finalize().is_err(), "the same transactions are finalized twice");

        // The events are matched with what becomes of the objects.
        if let Some(Trick::Became { at, what, value }) = trick {
            let k = *at as usize % ones.len();
            let o = ones.values_mut().nth(k).unwrap();
            let was = o.clone();
            match what { 0 => o.new.data = *value, 1 => o.new.owner = *value, 2 => o.new.credits = value[0], 3 => o.old.data = *value, _ => o.new.updated = value[0] }
            wrong |= objection(o).is_some();
            // Whether an object that exists neither before nor after can be read is left open.
            if o.old.owner == [0; 4] && o.new.owner == [0; 4] || o.old != was.old { wrong = true; }
        }
        let block_height = match trick { Some(Trick::Height(h)) => { wrong |= *h != height; *h } _ => height };
        // What was updated is told by the height, not by whoever asks.
        for o in ones.values_mut() {
            let touched = o.events.iter().any(|e| e.ty == 0 || e.ty == 3) || o.old.credits != o.new.credits;
            o.new.updated = if o.new.owner == [0; 4] { 0 } else if touched { height } else { o.old.updated };
        }
        let order = || -> Fail { Fail { sig: Some("event-shape".into()), msg: format!("the same events have different roots in transactions and matches: {done:?} {matched:?}") } };
        let md = match guarded(|| matches.finalize(block_height, |at| { let o = &ones[&(at.0 - lift)]; (o.old.real(), o.new.real()) })) { Ok(p) => p, Err(e) => return refused(wrong, "matching the objects", e) };
        match a.own.md.verify(md.clone()) {
            Ok(()) => { ensure_same!(md.events(), top(&matched).unwrap(), "the root of the matched events"); ensure_same!(md.block_height(), block_height, "the height of the match"); }
            Err(e) => return refused(wrong, "the match does not verify", e.to_string()),
        }
        let settled = !wrong && trick.is_none();
        if settled && top(&done) != top(&matched) { return Err(order()); }

        // The objects change.
        let mut after = objs.clone();
        for o in ones.values() { if o.new.owner == [0; 4] { after.remove(&o.addr); } else { after.insert(o.addr, o.new); } }
        let mut ops: Vec<(u64, Operation)> = ones.values().map(|o| (o.addr, if o.new.owner == [0; 4] { Operation::Delete } else if o.old.hash() == o.new.hash() { Operation::Read } else { Operation::Upsert(o.new.real()) })).collect();
        if let Some(Trick::Tree { at, obj, instead }) = trick {
            let at = at % if c.deep { P - 1 } else { 8 };
            let gone = instead.then(|| ops.remove(0).0);
            let same = gone == Some(at) && ones[&at].new.owner == [0; 4] && obj.is_none();
            if !ops.iter().any(|x| x.0 == at) { ops.push((at, obj.map_or(Operation::Delete, |o| Operation::Upsert(o.real())))); wrong |= !same; }
            wrong |= *instead && !same;
        }
        for (at, op) in ops { guarded(|| state.apply_operation(Address(at), op)).map_err(|e| format!("changing {at}: {e}"))?; }
        let su = if lift != 0 { tree(&objs, &after, &ones, depth, lift)? } else { state.root_proof().clone() };
        a.own.su[depth].verify(su.clone()).map_err(|e| format!("the state: {e}"))?;

        // All of it becomes a block.
        if let Some(Trick::Before { state, base: b, height: h }) = trick {
            let dummy = |base: H, state: H, h: u64| {
                let p = circuit.block.prove_base_unsafe(&circuit.circuit.verifier_only, base, state, h % P).map_err(|e| e.to_string())?;
                let mut q = circuit.prove_base(base).map_err(|e| e.to_string())?;
                q.proof = p;
                Ok::<_, String>(q)
            };
            let now = root(&hashes(&objs), depth + 1);
            let (base, now, h) = match (b, h % 3) { (true, 0) => (fs(*state).into(), now, 0), (true, _) => (now, now, *h), (false, 0) => (now, fs(*state).into(), 0), (false, _) => (fs(*state).into(), fs(*state).into(), *h) };
            let forged = guarded(|| dummy(base, now, h))??;
            // A first block on top of the present state is a chain of its own.
            wrong |= h % P != 0 || base != now || now != root(&hashes(&objs), depth + 1) || height != 1;
            prev = Either::Left(forged);
        }
        let (mut tx, mut md, mut su, mut prev_now) = (tx, md, su, prev.clone());
        if let Some(Trick::Forged { which, at, to }) = trick {
            let pis = match which { 0 => &mut tx.proof.public_inputs, 1 => &mut md.proof.public_inputs, 2 => &mut su.proof.public_inputs, _ => match &mut prev_now { Either::Left(p) => &mut p.proof.public_inputs, Either::Right(p) => &mut p.proof.public_inputs } };
            wrong |= forge(pis, (*at, *to));
        }
        let made = guarded(|| circuit.prove(&tx, &md, &su, &prev_now).map_err(|e| e.to_string())).and_then(|r| r).and_then(|p| circuit.verify(p.clone()).map_err(|e| e.to_string()).map(|()| p));
        let p = match made { Ok(p) => p, Err(e) => { if !wrong && top(&done) != top(&matched) { return Err(order()); } return refused(wrong, "the block", e); } };
        ensure_that!(!wrong, "a wrong block is accepted");
        ensure_same!(p.block_height(), height, "the height of the block");
        ensure_same!(p.base_state(), base, "the state before the first block");
        ensure_same!(p.state(), root(&hashes(&after), depth + 1), "the state after the block");
        guarded(|| blocks.increment(&tx, &md, &su)).map_err(|e| format!("the next block: {e}"))?.map_err(|e| e.to_string())?;
        ensure_same!(blocks.height(), height, "the height of the chain");
        prev = Either::Right(p);
        state.finalize();
        objs = after;
        for (at, o) in &objs { ensure_same!(state.get_state(Address(*at)).1.map(|x| x.hash()), Some(o.hash()), "the object at {at}"); }
        obs = obs.class(txs.len() > 1, "several transactions").class(ones.values().any(|o| o.events.len() > 3), "many events of an object").class(ones.values().any(|o| o.new.owner == [0; 4]), "deleted").class(txs.iter().any(|t| t.cast.len() > 3), "large cast").class(trick.is_some(), "harmless trick");
        obs.nontrivial |= ones.len() > 1 || txs.len() > 1;
    }
    Ok(obs)
}

fn change() -> impl Strategy<Value = Change> {
    (any::<u64>(), 0u8..6, any::<u8>(), proptest::option::of(value()), prop_oneof![3 => 0u8..2, 1 => 0u8..4], prop_oneof![3 => 0u8..2, 1 => 0u8..4], proptest::collection::vec(any::<u16>(), 1..8), proptest::collection::vec(prop_oneof![2 => Just(0u8), 1 => any::<u8>()], 1..5), proptest::collection::vec(any::<u8>(), 4))
        .prop_map(|(at, mode, who, write, reads, ensures, order, to, others)| Change { at, mode, who, write, reads, ensures, order, to, others })
}
fn trick() -> impl Strategy<Value = Trick> {
    let at = any::<u16>;
    prop_oneof![
        1 => (at(), value()).prop_map(|(at, value)| Trick::Event { at, value }),
        1 => at().prop_map(|at| Trick::EventMissing { at }),
        3 => (at(), 0u8..4, value()).prop_map(|(at, what, value)| Trick::Claimed { at, what, value }),
        1 => (at(), value()).prop_map(|(at, id)| Trick::Impostor { at, id }),
        3 => (at(), 0u8..4, value()).prop_map(|(at, what, value)| Trick::Matched { at, what, value }),
        3 => (at(), 0u8..5, value()).prop_map(|(at, what, value)| Trick::Became { at, what, value }),
        2 => (any::<u64>(), proptest::option::of((value(), word(), value())), any::<bool>()).prop_map(|(at, o, instead)| Trick::Tree { at, obj: o.map(|(owner, updated, data)| Obj { owner, updated, credits: 3, data }), instead }),
        1 => (0u64..5).prop_map(Trick::Height),
        2 => (value(), any::<bool>(), prop_oneof![0u64..6, Just(P), Just(P - 1)]).prop_map(|(state, base, height)| Trick::Before { state, base, height }),
        2 => (0u8..4, at(), word()).prop_map(|(which, at, to)| Trick::Forged { which, at, to }),
        2 => prop_oneof![0u64..3, any::<u64>()].prop_map(Trick::Lifted),
    ]
}
fn cases() -> impl Strategy<Value = Case> {
    let pool = proptest::collection::vec((any::<u64>(), 0u32..64, 0u8..4), 4);
    let block = (proptest::collection::vec(change(), 1..4), proptest::collection::vec(prop_oneof![3 => proptest::collection::vec(any::<u8>(), 0..2), 1 => proptest::collection::vec(any::<u8>(), 0..9)], 1..4), proptest::collection::vec(any::<u16>(), 1..9), proptest::collection::vec(any::<u16>(), 1..9), prop_oneof![4 => Just(0u8), 1 => 2u8..6], proptest::bool::weighted(0.2))
        .prop_map(|(changes, extras, cast_order, order, late, again)| Block { changes, extras, cast_order, order, late, again });
    (proptest::bool::weighted(0.1), pool, prop_oneof![4 => proptest::collection::vec(value(), 1..3), 1 => proptest::collection::vec(value(), 3..9)], proptest::collection::vec((any::<u64>(), any::<u8>(), value(), 0u64..3), 0..4), proptest::collection::vec(block, 1..4), proptest::option::of(trick())).prop_map(|(deep, pool, ids, genesis, blocks, trick)| {
        let within = |a: u64| if deep { a % (P - 1) } else { a % 8 };
        let mut addrs: Vec<u64> = vec![];
        for (a, bit, how) in pool {
            let near = addrs.last().copied();
            addrs.push(within(match (how, near) { (1, Some(n)) => n ^ 1, (2, Some(n)) => n ^ 1 << bit, _ => a }));
        }
        let at = |a: u64| addrs[(a % 4) as usize];
        let genesis = genesis.into_iter().map(|(a, w, d, u)| (at(a), w, d, u)).collect();
        let blocks = blocks.into_iter().map(|mut b| { for c in &mut b.changes { c.at = at(c.at); } b }).collect();
        Case { deep, ids, genesis, blocks, trick }
    })
}

/// Trees of hashes merged with one another.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Merge { Leaf(Option<V>, Option<V>), Lie(Option<V>, Option<V>, Option<V>), Node(Box<Merge>, Box<Merge>, Option<(u16, u64)>) }
type MergeProof = Either<merge::LeafProof<F, C, D>, merge::BranchProof<F, C, D>>;
fn both(l: Option<H>, r: Option<H>) -> Option<H> { match (l, r) { (Some(l), Some(r)) => Some(pair(l, r)), (l, r) => l.or(r) } }
/// The proof, and what it shows of either side and of both together; none if it must not be.
fn merged(m: &Merge) -> (Result<MergeProof, String>, Option<(Option<H>, Option<H>, Option<H>)>) {
    let own = &aux().own;
    let h = |v: &Option<V>| v.map(|v| H::from(fs(v)));
    match m {
        Merge::Leaf(a, b) => {
            let p = made(&own.merge_leaf.circuit, || own.merge_leaf.prove(&own.merge, h(a), h(b)).map(|p| p.proof));
            let q = guarded(|| own.merge_leaf.prove(&own.merge, h(a), h(b)).unwrap());
            (p.and_then(|_| q).map(Either::Left), Some((h(a), h(b), both(h(a), h(b)))))
        }
        Merge::Lie(a, b, c) => {
            let q = guarded(|| own.merge_leaf.prove_unsafe(&own.merge, h(a), h(b), h(c)).map_err(|e| e.to_string())).and_then(|r| r);
            let q = q.and_then(|q| own.merge_leaf.verify(q.clone()).map_err(|e| e.to_string()).map(|()| Either::Left(q)));
            let honest = both(h(a), h(b)) == h(c);
            (q, honest.then(|| (h(a), h(b), h(c))))
        }
        Merge::Node(l, r, forged) => {
            let ((lp, l), (rp, r)) = (merged(l), merged(r));
            let ((Ok(mut lp), Ok(rp)), (Some(l), Some(r))) = ((lp, rp), (l, r)) else { return (Err("a child".into()), None) };
            let bad = forged.is_some_and(|x| forge(match &mut lp { Either::Left(p) => &mut p.proof.public_inputs, Either::Right(p) => &mut p.proof.public_inputs }, x));
            let q = guarded(|| own.merge.prove(&lp, &rp).map_err(|e| e.to_string())).and_then(|r| r);
            let q = q.and_then(|q| own.merge.verify(q.clone()).map_err(|e| e.to_string()).map(|()| Either::Right(q)));
            (q, (!bad).then(|| (both(l.0, r.0), both(l.1, r.1), both(l.2, r.2))))
        }
    }
}
fn children_ok(m: &Merge) -> bool { match m { Merge::Node(l, r, _) => { let (l, r) = (merged(l), merged(r)); l.0.is_ok() && l.1.is_some() && r.0.is_ok() && r.1.is_some() } _ => true } }
fn merging(m: &Merge) -> Verdict {
    let depth = { fn d(m: &Merge) -> usize { match m { Merge::Node(l, r, _) => 1 + d(l).max(d(r)), _ => 0 } } d(m) };
    // A child that is wrong is looked at on its own.
    if let Merge::Node(l, r, _) = m { merging(l)?; merging(r)?; }
    if !children_ok(m) { return Ok(Obs::new(false).class(true, "refused")); }
    match merged(m) {
        (Ok(_), None) => Err("a merge is proved which is none".into()),
        (Err(e), Some(_)) => Err(format!("a merge cannot be proved: {e}").into()),
        (Err(_), None) => Ok(Obs::new(true).class(true, "refused")),
        (Ok(p), Some((a, b, c))) => {
            let got = match &p { Either::Left(p) => [(p.a_present(), p.a_hash()), (p.b_present(), p.b_hash()), (p.merged_present(), p.merged_hash())], Either::Right(p) => [(p.a_present(), p.a_hash()), (p.b_present(), p.b_hash()), (p.merged_present(), p.merged_hash())] };
            for ((name, want), got) in [("left", a), ("right", b), ("merged", c)].into_iter().zip(got) { ensure_same!(got, (want.is_some(), want.unwrap_or_default()), "the {name} tree"); }
            Ok(Obs::new(depth > 0).class(c.is_none(), "nothing"))
        }
    }
}
fn merge_cases() -> impl Strategy<Value = Merge> {
    let v = || proptest::option::weighted(0.7, value().prop_map(|v| if v == [0; 4] { [0, 0, 5, 0] } else { v }));
    let w = || proptest::option::weighted(0.7, value());
    let lie = (w(), w(), w(), 0u8..4).prop_map(|(a, b, c, k)| {
        let h = |v: Option<V>| v.map(|v| H::from(fs(v)));
        let c = match k { 0 => c, 1 => both(h(b), h(a)).map(|h| us(h.elements)), 2 => a, _ => both(h(a), h(b)).map(|h| us(h.elements)) };
        Merge::Lie(a, b, c)
    });
    prop_oneof![5 => (v(), v()).prop_map(|(a, b)| Merge::Leaf(a, b)), 1 => lie].prop_recursive(4, 12, 2, |m| (m.clone(), m, proptest::option::weighted(0.05, (any::<u16>(), word()))).prop_map(|(l, r, x)| Merge::Node(Box::new(l), Box::new(r), x)))
}

pub fn check() -> ! {
    let mut c = Check::new("C20");
    c.assume("Proofs are made and verified by the stand-in for plonky2: its gates are evaluated, its commitments are not.");
    c.assume("Any circuit whose public inputs name a program stands for the proof of that program.");
    c.assume("The events of a transaction are matched in the order of its cast, when it is complete.");
    c.run("blocks", "a block has more than one object or transaction, or is refused", c.cases(4000, 15), cases, history);
    c.run("merges", "the merge is of merges, or is refused", c.cases(10000, 15), merge_cases, merging);
    c.finish()
}
