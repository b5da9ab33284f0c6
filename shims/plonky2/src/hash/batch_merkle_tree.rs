use crate::hash::hash_types::RichField;
use crate::hash::merkle_proofs::MerkleProof;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::{GenericHashOut, Hasher};
use crate::util::log2_strict;

/// One Merkle tree over leaf layers of decreasing heights ("Field Merkle tree").
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct BatchMerkleTree<F: RichField, H: Hasher<F>> {
    /// leaves[layer][index]
    pub leaves: Vec<Vec<Vec<F>>>,
    pub digests: Vec<Vec<H::Hash>>,
    pub cap: MerkleCap<F, H>,
    pub leaf_heights: Vec<usize>,
}
impl<F: RichField, H: Hasher<F>> BatchMerkleTree<F, H> {
    pub fn new(leaves: Vec<Vec<Vec<F>>>, cap_height: usize) -> Self {
        use plonky2_maybe_rayon::*;
        assert!(!leaves.is_empty());
        assert!(leaves.windows(2).all(|w| w[0].len() > w[1].len()));
        let leaf_heights: Vec<usize> = leaves.iter().map(|l| log2_strict(l.len())).collect();
        assert!(*leaf_heights.last().unwrap() >= cap_height);
        let mut layer: Vec<H::Hash> = leaves[0].par_iter().map(|l| H::hash_or_noop(l)).collect();
        let mut digests = Vec::new();
        let mut next = 1;
        while layer.len() > 1 << cap_height {
            let mut up: Vec<H::Hash> = layer.par_chunks(2).map(|c| H::two_to_one(c[0], c[1])).collect();
            if next < leaves.len() && leaves[next].len() == up.len() {
                up = up.par_iter().zip(leaves[next].par_iter()).map(|(d, l)| {
                    let mut v = d.to_vec();
                    v.extend_from_slice(l);
                    H::hash_or_noop(&v)
                }).collect();
                next += 1;
            }
            digests.push(core::mem::replace(&mut layer, up));
        }
        assert_eq!(next, leaves.len());
        Self { leaves, digests, cap: MerkleCap(layer), leaf_heights }
    }
    pub fn open_batch(&self, leaf_index: usize) -> MerkleProof<F, H> {
        let mut i = leaf_index;
        let mut siblings = Vec::new();
        for layer in &self.digests { siblings.push(layer[i ^ 1]); i >>= 1; }
        MerkleProof { siblings }
    }
    pub fn values(&self, leaf_index: usize) -> Vec<Vec<F>> {
        let h = log2_strict(self.leaves[0].len());
        self.leaves.iter().zip(&self.leaf_heights).map(|(l, lh)| l[leaf_index >> (h - lh)].clone()).collect()
    }
}
