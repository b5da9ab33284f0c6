//! C08: the Merkle root over addressed leaves.
use h_common::{ensure_same, ensure_that, Check, Obs, Verdict};
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::Poseidon2Hash;
use proptest::prelude::*;
use script::Id;
use serde::{Deserialize, Serialize};

use crate::{gen, model};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Leaves(pub Vec<(u64, Id)>);

fn root(l: &[(u64, Id)]) -> Id { merkleize(l.iter().map(|(a, h)| (*a, Poseidon2Hash(*h))).collect()).0 }

fn oracle(c: &Leaves) -> Verdict {
    ensure_same!(root(&c.0), model::tree(&c.0), "root");
    let dup = c.0.windows(2).filter(|w| w[0].0 == w[1].0).count();
    let far = c.0.len() > 1 && (c.0[0].0 ^ c.0[c.0.len() - 1].0) >> 63 == 1;
    Ok(Obs::new(c.0.len() > 2).class(dup > 0, "shared address").class(dup > 1 && dup % 2 == 0, "odd group").class(far, "differ in the top bit").class(model::tree_depth(&c.0) > 4, "deep"))
}

fn addr() -> impl Strategy<Value = u64> {
    prop_oneof![
        4 => 0u64..6, 3 => 0u64..64, 2 => any::<u64>(),
        2 => (0u32..64, 0u64..3).prop_map(|(s, k)| (1u64 << s).wrapping_sub(k)),
        1 => u64::MAX - 4..=u64::MAX,
        1 => (0u32..60, 0u64..8).prop_map(|(s, k)| k << s),
    ]
}
fn leaves(max: usize) -> impl Strategy<Value = Leaves> {
    prop::collection::vec((addr(), gen::digest()), 0..max).prop_map(|mut v| {
        v.sort_by_key(|l| l.0);
        Leaves(v)
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Change { leaves: Vec<(u64, Id)>, at: usize, by: u8, digest: Id }

fn binds(c: &Change) -> Verdict {
    if c.leaves.is_empty() { return Ok(Obs::default()); }
    let mut other = c.leaves.clone();
    let k = c.at % other.len();
    match c.by % 4 {
        0 => other[k].1 = c.digest,
        1 => { other.remove(k); }
        2 => { let l = other[k]; other.insert(k, (l.0, c.digest)); }
        _ => { let j = (k + 1) % other.len(); let t = other[k].1; other[k].1 = other[j].1; other[j].1 = t; }
    }
    if other == c.leaves || other.is_empty() { return Ok(Obs::default()); }
    ensure_that!(root(&c.leaves) != root(&other), "two different leaf lists share a root: {other:?}");
    Ok(Obs::new(c.leaves.len() > 1))
}

pub fn check() -> ! {
    let mut c = Check::new("C08");
    let n = c.cases(20_000, 20);
    c.run("tree", "up to 12 leaves in address order, dense, sparse, sharing addresses and differing in high bits, against the prefix tree computed top down; non-trivial = at least 3 leaves", n, || leaves(12), oracle);
    let n = c.cases(1_000, 20);
    c.run("large", "up to 150 leaves", n, || leaves(150), oracle);
    let n = c.cases(6_000, 10);
    c.run("binds", "one leaf replaced, dropped, added or two swapped changes the root; non-trivial = at least 2 leaves and a real change", n,
        || (leaves(10), any::<usize>(), any::<u8>(), gen::digest()).prop_map(|(l, at, by, digest)| Change { leaves: l.0, at, by, digest }), binds);
    c.assume("the Poseidon2 permutation is the plonky2 stand-in's; the tree, padding and byte order are checked, its constants are not");
    c.finish()
}
