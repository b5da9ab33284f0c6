//! C18: the state tree is a map, its proofs show the roots of the map before and after, and a leaf
//! of it can be changed only under its own address.
use std::collections::BTreeMap;
use std::sync::OnceLock;

use h_common::{ensure_same, ensure_that, guarded, Check, Obs, Verdict};
use itertools::Either;
use mozak_node::block_proposer::state::{AuxStateData, Operation, State};
use mozak_node::block_proposer::{reduce_tree, reduce_tree_by_address, Address, AddressPath, BranchAddress, BranchAddressComparison as Cmp, Dir};
use mozak_recproofs::circuits::state_update as su;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::c19::{value, word};
use crate::world::*;

const DEEPEST: usize = 63;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op { Read, Delete, Upsert(Obj) }
#[derive(Debug, Clone, Serialize, Deserialize)]
struct History { depth: usize, blocks: Vec<Vec<(u64, Op)>> }

struct Circuits { leaf: su::LeafCircuit<F, C, D>, branches: Vec<su::BranchCircuit<F, C, D>> }
fn circuits() -> &'static Circuits {
    static A: OnceLock<Circuits> = OnceLock::new();
    A.get_or_init(|| {
        let leaf = su::LeafCircuit::new(&CONFIG);
        let mut branches = vec![su::BranchCircuit::from_leaf(&CONFIG, &leaf)];
        for i in 0..DEEPEST { branches.push(su::BranchCircuit::from_branch(&CONFIG, &branches[i])); }
        Circuits { leaf, branches }
    })
}
fn aux() -> &'static AuxStateData {
    static A: OnceLock<AuxStateData> = OnceLock::new();
    A.get_or_init(|| AuxStateData::new(&CONFIG, DEEPEST))
}

pub fn empty(height: usize) -> H {
    static E: OnceLock<Vec<H>> = OnceLock::new();
    E.get_or_init(|| {
        let mut v = vec![Obj::default().hash()];
        for i in 0..=DEEPEST { v.push(pair(v[i], v[i])); }
        v
    })[height]
}
/// The root of the tree of that height with those leaves, all other leaves empty.
pub fn root(leaves: &BTreeMap<u64, H>, height: usize) -> H { part(&leaves.iter().map(|(a, h)| (*a, *h)).collect::<Vec<_>>(), height) }
fn part(leaves: &[(u64, H)], height: usize) -> H {
    if leaves.is_empty() { return empty(height); }
    if height == 0 { return leaves[0].1; }
    let cut = leaves.partition_point(|l| l.0 >> (height - 1) & 1 == 0);
    pair(part(&leaves[..cut], height - 1), part(&leaves[cut..], height - 1))
}
/// The root of a tree of just those leaves, nodes of one child left out.
pub fn sparse(leaves: &[(u64, H)], height: usize) -> Option<H> {
    if height == 0 || leaves.len() < 2 { return leaves.first().map(|l| l.1); }
    let cut = leaves.partition_point(|l| l.0 >> (height - 1) & 1 == 0);
    match (sparse(&leaves[..cut], height - 1), sparse(&leaves[cut..], height - 1)) {
        (Some(l), Some(r)) => Some(pair(l, r)),
        (l, r) => l.or(r),
    }
}
pub fn hashes(map: &BTreeMap<u64, Obj>) -> BTreeMap<u64, H> { map.iter().map(|(a, o)| (*a, o.hash())).collect() }

/// The map before the block, and what the block does to it.
#[derive(Default)]
struct Model { before: BTreeMap<u64, Obj>, now: BTreeMap<u64, (bool, Option<Obj>)> }
impl Model {
    fn get(&self, a: u64) -> (Option<Obj>, Option<Obj>) {
        let old = self.before.get(&a).copied();
        (old, self.now.get(&a).map_or(old, |n| n.1))
    }
    /// Whether the block may still do that to the object.
    fn apply(&mut self, a: u64, op: Op) -> bool {
        let old = self.before.get(&a).copied();
        let (settled, new) = self.now.get(&a).copied().unwrap_or((false, old));
        match op {
            Op::Read => { self.now.entry(a).or_insert((false, old)); }
            Op::Delete if settled && new.is_some() => return false,
            // There was nothing to delete, so it can still be made.
            Op::Delete if old.is_none() && self.now.contains_key(&a) => {}
            Op::Delete => { self.now.insert(a, (true, None)); }
            Op::Upsert(o) if settled => return new == Some(o),
            Op::Upsert(o) => { self.now.insert(a, (true, Some(o))); }
        }
        true
    }
    fn after(&self) -> BTreeMap<u64, Obj> {
        let mut m = self.before.clone();
        for (a, (_, o)) in &self.now { match o { Some(o) => m.insert(*a, *o), None => m.remove(a) }; }
        m
    }
}

fn shows(state: &State<'_>, m: &Model, depth: usize) -> Result<(), h_common::Fail> {
    let p = state.root_proof();
    circuits().branches[depth].verify(p.clone()).map_err(|e| format!("the proof of the tree does not verify: {e}"))?;
    ensure_same!(p.old(), root(&hashes(&m.before), depth + 1), "the root before the block");
    ensure_same!(p.new(), root(&hashes(&m.after()), depth + 1), "the root after the block");
    let none = empty(0);
    let touched: Vec<(u64, H)> = m.now.keys().map(|a| {
        let (o, n) = m.get(*a);
        (*a, summary(*a, o.map_or(none, |o| o.hash()), n.map_or(none, |o| o.hash())))
    }).collect();
    ensure_same!(p.summary_present(), !touched.is_empty(), "whether something was touched");
    ensure_same!(p.summary(), sparse(&touched, depth + 1).unwrap_or_default(), "the summary of what was touched");
    ensure_same!(p.address_present(), !touched.is_empty(), "whether the root has an address");
    if !touched.is_empty() { ensure_same!(p.address(), 0, "the address of the root"); }
    Ok(())
}

fn history(c: &History) -> Verdict {
    let mut state = State::new(aux(), c.depth);
    let mut m = Model::default();
    let (mut obs, mut busy) = (Obs::default(), 0);
    let all: Vec<u64> = c.blocks.iter().flatten().map(|x| x.0).collect();
    shows(&state, &m, c.depth)?;
    for b in &c.blocks {
        for (a, op) in b {
            if !m.apply(*a, *op) { continue; }
            let real = match op { Op::Read => Operation::Read, Op::Delete => Operation::Delete, Op::Upsert(o) => Operation::Upsert(o.real()) };
            guarded(|| state.apply_operation(Address(*a), real)).map_err(|e| format!("{op:?} at {a}: {e}"))?;
            for x in &all {
                let (old, new) = state.get_state(Address(*x));
                let (mo, mn) = m.get(*x);
                ensure_same!(old.copied().map(|o| o.hash()), mo.map(|o| o.hash()), "the object at {x} before the block");
                ensure_same!(new.copied().map(|o| o.hash()), mn.map(|o| o.hash()), "the object at {x} after the block");
            }
            if c.depth < 9 { shows(&state, &m, c.depth)?; }
        }
        shows(&state, &m, c.depth)?;
        busy += usize::from(!m.now.is_empty());
        obs = obs.class(m.now.values().any(|n| n.0 && n.1.is_none()), "deleted")
            .class(m.now.keys().any(|a| matches!(m.get(*a), (Some(x), Some(y)) if x.hash() != y.hash())), "updated")
            .class(m.now.iter().any(|(_, n)| !n.0), "only read").class(m.now.is_empty() && !m.before.is_empty(), "left alone");
        let before = m.after();
        guarded(|| state.finalize()).map_err(|e| format!("finalize: {e}"))?;
        m = Model { before, now: BTreeMap::new() };
        shows(&state, &m, c.depth)?;
    }
    obs.nontrivial = busy > 1;
    Ok(obs)
}

fn object() -> impl Strategy<Value = Obj> + Clone {
    (value(), word(), word(), value()).prop_map(|(owner, updated, credits, data)| Obj { owner, updated, credits, data })
}
fn histories() -> impl Strategy<Value = History> {
    let pool = proptest::collection::vec((any::<u64>(), 0u32..64, prop_oneof![Just(0u8), Just(1), Just(2), Just(3)]), 1..5);
    let depth = prop_oneof![6 => 0usize..5, 2 => 5usize..9, 1 => Just(DEEPEST)];
    let op = prop_oneof![3 => Just(None), 2 => Just(Some(None)), 4 => object().prop_map(|o| Some(Some(o)))];
    let blocks = proptest::collection::vec(proptest::collection::vec((any::<prop::sample::Index>(), op), 0..6), 1..5);
    (depth, pool, blocks).prop_map(|(depth, pool, blocks)| {
        let within = |a: u64| if depth == 63 { a % (P - 1) } else { a % (1 << (depth + 1)) };
        let mut addrs: Vec<u64> = vec![];
        for (a, bit, how) in pool {
            let near = addrs.last().copied();
            addrs.push(within(match (how, near) { (1, Some(n)) => n ^ 1, (2, Some(n)) => n ^ 1 << (bit as usize % (depth + 1)), (3, _) => u64::MAX, _ => a }));
        }
        let blocks = blocks.into_iter().map(|b| b.into_iter().map(|(i, op)| (addrs[i.index(addrs.len())], match op { None => Op::Read, Some(None) => Op::Delete, Some(Some(o)) => Op::Upsert(o) })).collect()).collect();
        History { depth, blocks }
    })
}

/// A tree of leaves, each with hashes before and after, and with the address it claims, if any.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Claims {
    height: usize,
    leaves: Vec<(V, V, Option<u64>)>,
    /// The summary which a leaf claims instead of its own.
    lie: Option<(usize, Option<V>)>,
    /// A word of a child's public inputs replaced by another: the height of the child, where, and the word.
    forged: Option<(usize, u16, u64)>,
}
type Node = Either<su::LeafProof<F, C, D>, su::BranchProof<F, C, D>>;
fn pis(n: &mut Node) -> &mut Vec<F> { match n { Either::Left(p) => &mut p.proof.public_inputs, Either::Right(p) => &mut p.proof.public_inputs } }

fn build(c: &Claims) -> Result<(su::BranchProof<F, C, D>, bool), String> {
    let k = circuits();
    let mut forged = false;
    let mut row: Vec<Node> = vec![];
    for (i, (old, new, addr)) in c.leaves.iter().enumerate() {
        let p = match c.lie {
            Some((j, s)) if i == j => guarded(|| k.leaf.prove_unsafe(fs(*old).into(), fs(*new).into(), s.map(|s| fs(s).into()), *addr))?,
            _ => guarded(|| k.leaf.prove(fs(*old).into(), fs(*new).into(), *addr))?,
        }.map_err(|e| e.to_string())?;
        k.leaf.verify(p.clone()).map_err(|e| format!("leaf: {e}"))?;
        row.push(Either::Left(p));
    }
    for h in 0..c.height {
        if let Some((at, i, w)) = c.forged {
            if at == h {
                let k = i as usize % row.len();
                let v = pis(&mut row[k]);
                let j = i as usize / 16 % v.len();
                forged |= v[j] != f(w);
                v[j] = f(w);
            }
        }
        let mut next: Vec<Node> = vec![];
        for lr in row.chunks(2) {
            let p = match (&lr[0], &lr[1]) {
                (Either::Left(l), Either::Left(r)) => guarded(|| k.branches[h].prove(l, r))?,
                (Either::Right(l), Either::Right(r)) => guarded(|| k.branches[h].prove(l, r))?,
                _ => unreachable!(),
            }.map_err(|e| e.to_string())?;
            k.branches[h].verify(p.clone()).map_err(|e| format!("branch: {e}"))?;
            next.push(Either::Right(p));
        }
        row = next;
    }
    match row.pop() { Some(Either::Right(p)) => Ok((p, forged)), _ => unreachable!() }
}

fn claims(c: &Claims) -> Verdict {
    let own = |i: usize| { let (o, n, a) = &c.leaves[i]; a.map(|a| us(summary(a, fs(*o).into(), fs(*n).into()).elements)) };
    let lie = c.lie.is_some_and(|(i, s)| s != own(i));
    let silent = c.leaves.iter().any(|(o, n, a)| a.is_none() && o != n);
    let misplaced = c.leaves.iter().enumerate().any(|(i, l)| l.2.is_some_and(|a| a != i as u64));
    let good = !lie && !silent && !misplaced;
    let obs = Obs::new(c.height > 1).class(lie, "lie").class(silent, "change without an address").class(misplaced, "misplaced").class(good && c.forged.is_none(), "good");
    match build(c) {
        Err(e) => { ensure_that!(!good || c.forged.is_some(), "a proper tree is refused: {e}"); }
        Ok((p, forged)) => {
            ensure_that!(!forged, "a branch over a forged child is accepted");
            ensure_that!(!lie, "a leaf shows a summary that is not of itself");
            ensure_that!(!silent, "a leaf changes without an address");
            // Blocks take only trees whose root is at address zero.
            let at_root = !p.address_present() || p.address() == 0;
            ensure_that!(!misplaced || !at_root, "a leaf claims the address of another");
            ensure_that!(at_root || !good, "a proper tree has the address {}", p.address());
            let part = |g: &dyn Fn(&(V, V, Option<u64>)) -> V| root(&c.leaves.iter().enumerate().map(|(i, l)| (i as u64, fs(g(l)).into())).collect(), c.height);
            ensure_same!(p.old(), part(&|l| l.0), "the root before");
            ensure_same!(p.new(), part(&|l| l.1), "the root after");
            let touched: Vec<(u64, H)> = (0..c.leaves.len()).filter_map(|i| own(i).map(|s| (i as u64, fs(s).into()))).collect();
            ensure_same!(p.summary_present(), !touched.is_empty(), "whether something was touched");
            ensure_same!(p.summary(), sparse(&touched, c.height).unwrap_or_default(), "the summary");
        }
    }
    Ok(obs)
}

fn claim_cases() -> impl Strategy<Value = Claims> {
    (1usize..4).prop_flat_map(|height| {
        let n = 1usize << height;
        let wild = prop_oneof![3 => 0..n as u64 + 2, 1 => word(), 1 => (0..n as u64, 0u32..64).prop_map(|(a, k)| (a | 1 << k) % P)].prop_map(|a| if a == P - 1 { 7 } else { a });
        let leaf = (value(), value(), 0u8..8);
        let odd = prop_oneof![4 => Just(None), 3 => (0..n, wild).prop_map(Some)];
        let shift = prop_oneof![6 => Just(0u64), 1 => Just(n as u64), 1 => Just(1u64), 1 => Just(1u64 << 60), 1 => word()];
        (proptest::collection::vec(leaf, n), odd, shift, proptest::bool::weighted(0.1), proptest::option::weighted(0.1, (0..n, proptest::option::of(value()))), proptest::option::weighted(0.1, (0..height, any::<u16>(), word()))).prop_map(
            move |(leaves, odd, shift, silent, lie, forged)| {
                let mut leaves: Vec<(V, V, Option<u64>)> = leaves.into_iter().enumerate().map(|(i, (o, n, k))| match k {
                    0..=2 => (o, if silent { n } else { o }, None),
                    3 => (o, o, Some((i as u64 + shift) % (P - 1))),
                    _ => (o, n, Some((i as u64 + shift) % (P - 1))),
                }).collect();
                if let Some((i, a)) = odd { leaves[i].2 = Some(a); }
                Claims { height, leaves, lie, forged }
            })
    })
}

/// A node: how far it is above the leaves, and the bits above that.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct At { height: usize, leaf: u64 }
impl At {
    fn prefix(self) -> u64 { (u128::from(self.leaf) >> self.height) as u64 }
    fn up(self, n: usize) -> At { At { height: self.height + n, ..self } }
    /// Reached from the root.
    fn walked(self) -> BranchAddress {
        let mut b = BranchAddress::root(64);
        for k in (self.height..64).rev() { b = b.child(if self.leaf >> k & 1 == 1 { Dir::Right } else { Dir::Left }).unwrap(); }
        b
    }
}
fn compared(l: At, r: At) -> Cmp {
    let h = l.height.max(r.height);
    let (pl, pr) = (l.up(h - l.height).prefix(), r.up(h - r.height).prefix());
    let below = |a: At| a.leaf >> (h - 1) & 1 == 0;
    if l.height == r.height {
        if pl == pr { return Cmp::Equal; }
        return match (pl >> 1 == pr >> 1, pl < pr) { (true, true) => Cmp::RightSibling, (true, false) => Cmp::LeftSibling, (false, true) => Cmp::RightCousin, (false, false) => Cmp::LeftCousin };
    }
    match (pl.cmp(&pr), l.height > r.height) {
        (std::cmp::Ordering::Less, _) => Cmp::RightCousin,
        (std::cmp::Ordering::Greater, _) => Cmp::LeftCousin,
        (_, true) => if below(r) { Cmp::LeftChild } else { Cmp::RightChild },
        (_, false) => if below(l) { Cmp::LeftParent } else { Cmp::RightParent },
    }
}

fn addresses(&(l, r, n): &(At, At, usize)) -> Verdict {
    let got = |f: &dyn Fn() -> BranchAddress| guarded(f).map_err(|e| h_common::Fail::from(format!("{l:?} {r:?} {n}: {e}")));
    for a in [l, r] {
        ensure_same!(got(&|| BranchAddress::base(a.leaf).parent(a.height))?, a.walked(), "the ancestor of a leaf");
        let n = n % (65 - a.height);
        ensure_same!(got(&|| a.walked().parent(n))?, a.up(n).walked(), "the ancestor {n} up");
        if a.height == 0 {
            for d in [Dir::Left, Dir::Right] { ensure_same!(a.walked().child(d).is_err(), true, "a leaf's child"); }
        }
        let mut path = AddressPath::path(a.prefix(), 64 - a.height);
        for k in (a.height..64).rev() {
            let Some(p) = path else { return Err("a path ends early".into()); };
            ensure_same!(p.is_zero(), (u128::from(a.leaf) & ((1u128 << (k + 1)) - 1)) >> a.height == 0, "whether only left turns remain");
            let (next, dir) = guarded(|| p.next())?;
            ensure_same!(dir, if a.leaf >> k & 1 == 1 { Dir::Right } else { Dir::Left }, "the turn at height {k}");
            path = next;
        }
        ensure_that!(path.is_none(), "a path does not end");
        ensure_same!(Address::from_state(Address(a.leaf).to_state()), Address(a.leaf), "an address as bytes");
    }
    let mut top = l.up(r.height.saturating_sub(l.height));
    let mut other = r.up(l.height.saturating_sub(r.height));
    while top.prefix() != other.prefix() { (top, other) = (top.up(1), other.up(1)); }
    ensure_same!(got(&|| l.walked().common_ancestor(r.walked()))?, top.walked(), "the common ancestor");
    ensure_same!(guarded(|| l.walked().compare(r.walked())).map_err(|e| format!("{l:?} {r:?}: {e}"))?, compared(l, r), "the comparison of {l:?} and {r:?}");
    ensure_same!(l.walked().partial_cmp(&r.walked()), if l.height == r.height { Some(l.prefix().cmp(&r.prefix())) } else { None }, "the order");
    Ok(Obs::new(l.height != r.height || l.leaf != r.leaf).class(l.height != r.height, "different heights").class(top.height == 64, "nothing in common"))
}
fn address_cases() -> impl Strategy<Value = (At, At, usize)> {
    let height = || prop_oneof![2 => Just(0usize), 3 => 0usize..65, 1 => Just(64usize), 1 => 60usize..65];
    let leaf = || prop_oneof![any::<u64>(), 0u64..9, Just(u64::MAX), (0u32..64).prop_map(|k| 1 << k)];
    let pair = (leaf(), leaf(), 0u32..64, 0u8..3).prop_map(|(a, b, k, how)| (a, match how { 0 => b, 1 => a ^ 1 << k, _ => a ^ (b & ((1 << k) - 1)) }));
    (pair, height(), prop_oneof![Just(None), height().prop_map(Some)], 0usize..65).prop_map(|((a, b), g, h, n)| (At { height: g, leaf: a }, At { height: h.unwrap_or(g), leaf: b }, n))
}

/// Merged pairwise, as full as possible on the left.
fn balanced(v: &[String]) -> String {
    if v.len() == 1 { return v[0].clone(); }
    let cut = v.len().next_power_of_two() / 2;
    format!("({}{})", balanced(&v[..cut]), balanced(&v[cut..]))
}
fn by_address(v: &[(u64, String)]) -> String {
    let d = v[0].0 ^ v[v.len() - 1].0;
    if d == 0 { return balanced(&v.iter().map(|x| x.1.clone()).collect::<Vec<_>>()); }
    let k = 63 - d.leading_zeros();
    let cut = v.partition_point(|x| x.0 >> k & 1 == 0);
    format!("({}{})", by_address(&v[..cut]), by_address(&v[cut..]))
}
fn reduced(v: &Vec<u64>) -> Verdict {
    let name = |(i, a): (usize, &u64)| (*a, format!("[{i}]"));
    let named: Vec<(u64, String)> = v.iter().enumerate().map(name).collect();
    let plain: Vec<String> = named.iter().map(|x| x.1.clone()).collect();
    let got = guarded(|| reduce_tree(plain.clone(), |x| x, |x| x, |l, r| format!("({l}{r})")))?;
    ensure_same!(got, if v.is_empty() { None } else { Some(balanced(&plain)) }, "a tree of {} items", v.len());
    let bases = named.iter().map(|(a, s)| (BranchAddress::base(*a), s.clone())).collect();
    let got = guarded(|| reduce_tree_by_address(bases, |a| a.parent(1), |_, l, r| format!("({l}{r})"))).map_err(|e| format!("{v:?}: {e}"))?.map(|x| x.1);
    ensure_same!(got, if v.is_empty() { None } else { Some(by_address(&named)) }, "a tree of addresses {v:?}");
    Ok(Obs::new(v.len() > 2).class(v.windows(2).any(|w| w[0] == w[1]), "shared address"))
}

pub fn check() -> ! {
    let mut c = Check::new("C18");
    c.assume("Proofs are made and verified by the stand-in for plonky2: its gates are evaluated, its commitments are not.");
    c.run("histories", "more than one block touches the tree", c.cases(3000, 15), histories, history);
    c.run("claims", "the tree has more than one level", c.cases(30000, 15), claim_cases, claims);
    c.run("addresses", "the two nodes differ", c.cases(200000, 15), address_cases, addresses);
    let address = || prop_oneof![3 => 0u64..12, 1 => any::<u64>(), 1 => (0u32..64).prop_map(|k| 1u64 << k)];
    c.run("reduction", "there are more than two items", c.cases(100000, 15), move || proptest::collection::vec(address(), 0..20).prop_map(|mut v| { v.sort(); v }), reduced);
    c.finish()
}
