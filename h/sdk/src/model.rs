//! The reference: what hashes, trees, canonical events and tapes should be,
//! written from the documentation and independent of the SDK's code.
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon2::Poseidon2Permutation;
use plonky2::hash::hashing::PlonkyPermutation;
use script::{Ev, Id};

/// Poseidon2 sponge of width 12 and rate 8 over one field element per byte.
pub fn sponge(bytes: &[u8]) -> Id {
    let mut st = [F::ZERO; 12];
    for chunk in bytes.chunks(8) {
        for (s, b) in st.iter_mut().zip(chunk) { *s = F::from_canonical_u8(*b); }
        let mut p = Poseidon2Permutation::new(st);
        p.permute();
        st = p.as_ref().try_into().unwrap();
    }
    let mut out = [0; 32];
    for k in 0..4 { out[8 * k..8 * k + 8].copy_from_slice(&st[k].to_canonical_u64().to_le_bytes()); }
    out
}
/// Bit padding: a one, then zeros up to a multiple of the rate.
pub fn sponge_padded(bytes: &[u8]) -> Id {
    let mut v = bytes.to_vec();
    v.push(1);
    while v.len() % 8 != 0 { v.push(0); }
    sponge(&v)
}
pub fn node(l: Id, r: Id) -> Id { sponge(&[l, r].concat()) }

fn balanced(mut level: Vec<Id>) -> Id {
    while level.len() > 1 {
        level = level.chunks(2).map(|c| if c.len() == 2 { node(c[0], c[1]) } else { c[0] }).collect();
    }
    level[0]
}
/// The compressed binary trie over addresses; leaves sharing an address are
/// first joined pairwise from the left.
pub fn tree(leaves: &[(u64, Id)]) -> Id {
    match leaves {
        [] => [0; 32],
        _ => {
            let (first, last) = (leaves[0].0, leaves[leaves.len() - 1].0);
            if first == last { return balanced(leaves.iter().map(|l| l.1).collect()); }
            let bit = 63 - (first ^ last).leading_zeros();
            let at = leaves.iter().position(|l| l.0 >> bit & 1 == 1).unwrap();
            node(tree(&leaves[..at]), tree(&leaves[at..]))
        }
    }
}
pub fn tree_depth(leaves: &[(u64, Id)]) -> usize {
    if leaves.len() < 2 { return 0; }
    let (first, last) = (leaves[0].0, leaves[leaves.len() - 1].0);
    if first == last { return 1; }
    let bit = 63 - (first ^ last).leading_zeros();
    let at = leaves.iter().position(|l| l.0 >> bit & 1 == 1).unwrap();
    1 + tree_depth(&leaves[..at]).max(tree_depth(&leaves[at..]))
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Canon { pub address: [u8; 8], pub kind: u8, pub value: Id }
impl Canon {
    pub fn of(e: &Ev) -> Self { Canon { address: e.address, kind: e.kind, value: sponge_padded(&e.data) } }
    pub fn hash(&self) -> Id {
        let mut v = u64::from(self.kind).to_le_bytes().to_vec();
        v.extend(self.address);
        v.extend(self.value);
        sponge(&v)
    }
}
/// The canonical order, with each event's place in time.
pub fn canonical(events: &[Ev]) -> Vec<(Canon, usize)> {
    let mut v: Vec<_> = events.iter().map(Canon::of).zip(0..).collect();
    v.sort();
    v
}
pub fn events_root(events: &[Ev]) -> Id {
    let mut leaves: Vec<_> = canonical(events).into_iter().map(|(c, _)| (u64::from_le_bytes(c.address), c.hash())).collect();
    // The tree takes the events in canonical order, which sorts addresses as bytes.
    root_in_order(&mut leaves)
}
/// The root over leaves in the given order (addresses not necessarily ascending).
pub fn root_in_order(leaves: &mut Vec<(u64, Id)>) -> Id {
    // join equal neighbours pairwise until none are left, then their ancestors level by level
    let mut shifted = 0;
    loop {
        if leaves.len() <= 1 { return leaves.first().map_or([0; 32], |l| l.1); }
        let mut out: Vec<(u64, Id)> = vec![];
        let mut i = 0;
        let mut any = false;
        while i < leaves.len() {
            if i + 1 < leaves.len() && leaves[i].0 == leaves[i + 1].0 {
                out.push((leaves[i].0, node(leaves[i].1, leaves[i + 1].1)));
                i += 2;
                any = true;
            } else {
                out.push(leaves[i]);
                i += 1;
            }
        }
        *leaves = out;
        if !any {
            assert!(shifted < 64);
            shifted += 1;
            for l in leaves.iter_mut() { l.0 >>= 1; }
        }
    }
}
