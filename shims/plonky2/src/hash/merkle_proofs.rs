use anyhow::{ensure, Result};
use serde::{Deserialize, Serialize};
use crate::hash::hash_types::{HashOutTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::{GenericHashOut, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct MerkleProof<F: RichField, H: Hasher<F>> {
    pub siblings: Vec<H::Hash>,
}
impl<F: RichField, H: Hasher<F>> MerkleProof<F, H> {
    pub fn len(&self) -> usize { self.siblings.len() }
    pub fn is_empty(&self) -> bool { self.siblings.is_empty() }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MerkleProofTarget { pub siblings: Vec<HashOutTarget> }

pub fn verify_merkle_proof_to_cap<F: RichField, H: Hasher<F>>(leaf_data: Vec<F>, leaf_index: usize, merkle_cap: &MerkleCap<F, H>, proof: &MerkleProof<F, H>) -> Result<()> {
    verify_batch_merkle_proof_to_cap(&[leaf_data.clone()], &[proof.siblings.len()], leaf_index, merkle_cap, proof)
}
/// `leaf_heights` are relative to the cap: the number of siblings above that leaf layer.
pub fn verify_batch_merkle_proof_to_cap<F: RichField, H: Hasher<F>>(leaf_data: &[Vec<F>], leaf_heights: &[usize], mut leaf_index: usize, merkle_cap: &MerkleCap<F, H>, proof: &MerkleProof<F, H>) -> Result<()> {
    ensure!(leaf_data.len() == leaf_heights.len());
    let mut current = H::hash_or_noop(&leaf_data[0]);
    let mut height = proof.siblings.len();
    ensure!(leaf_heights[0] == height);
    let mut next = 1;
    for s in &proof.siblings {
        let bit = leaf_index & 1;
        leaf_index >>= 1;
        current = if bit == 1 { H::two_to_one(*s, current) } else { H::two_to_one(current, *s) };
        height -= 1;
        if next < leaf_data.len() && leaf_heights[next] == height {
            let mut v = current.to_vec();
            v.extend_from_slice(&leaf_data[next]);
            current = H::hash_or_noop(&v);
            next += 1;
        }
    }
    ensure!(next == leaf_data.len(), "unused leaf layers");
    ensure!(leaf_index < merkle_cap.len(), "leaf index out of range");
    ensure!(current == merkle_cap.0[leaf_index], "Invalid Merkle proof.");
    Ok(())
}
