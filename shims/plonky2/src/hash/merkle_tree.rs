use serde::{Deserialize, Serialize};
use crate::hash::hash_types::RichField;
use crate::hash::merkle_proofs::MerkleProof;
use crate::plonk::config::{GenericHashOut, Hasher};
use crate::util::log2_strict;

#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct MerkleCap<F: RichField, H: Hasher<F>>(pub Vec<H::Hash>);
impl<F: RichField, H: Hasher<F>> Default for MerkleCap<F, H> { fn default() -> Self { Self(Vec::new()) } }
impl<F: RichField, H: Hasher<F>> MerkleCap<F, H> {
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn height(&self) -> usize { log2_strict(self.len()) }
    pub fn flatten(&self) -> Vec<F> { self.0.iter().flat_map(|h| h.to_vec()).collect() }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MerkleTree<F: RichField, H: Hasher<F>> {
    pub leaves: Vec<Vec<F>>,
    /// Digest layers from the leaves up to the cap.
    pub digests: Vec<Vec<H::Hash>>,
    pub cap: MerkleCap<F, H>,
}
impl<F: RichField, H: Hasher<F>> Default for MerkleTree<F, H> {
    fn default() -> Self { Self { leaves: Vec::new(), digests: Vec::new(), cap: MerkleCap::default() } }
}
impl<F: RichField, H: Hasher<F>> MerkleTree<F, H> {
    pub fn new(leaves: Vec<Vec<F>>, cap_height: usize) -> Self {
        use plonky2_maybe_rayon::*;
        let log2_leaves_len = log2_strict(leaves.len());
        assert!(cap_height <= log2_leaves_len, "cap_height={} should be at most log2(leaves.len())={}", cap_height, log2_leaves_len);
        let mut layer: Vec<H::Hash> = leaves.par_iter().map(|l| H::hash_or_noop(l)).collect();
        let mut digests = Vec::new();
        while layer.len() > 1 << cap_height {
            let next = layer.par_chunks(2).map(|c| H::two_to_one(c[0], c[1])).collect();
            digests.push(core::mem::replace(&mut layer, next));
        }
        Self { leaves, digests, cap: MerkleCap(layer) }
    }
    pub fn get(&self, i: usize) -> &[F] { &self.leaves[i] }
    pub fn prove(&self, leaf_index: usize) -> MerkleProof<F, H> {
        let mut i = leaf_index;
        let mut siblings = Vec::new();
        for layer in &self.digests {
            siblings.push(layer[i ^ 1]);
            i >>= 1;
        }
        MerkleProof { siblings }
    }
}
