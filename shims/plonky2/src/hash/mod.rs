pub mod batch_merkle_tree;
pub mod hash_types;
pub mod hashing;
pub mod merkle_proofs;
pub mod merkle_tree;
pub mod poseidon;
pub mod poseidon2;
