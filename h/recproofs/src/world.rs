//! What all the checks of the block proofs share: values, hashes, and what it means to be accepted.
use h_common::guarded;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hash_types::HashOut;
use plonky2::hash::poseidon2::Poseidon2Hash;
use plonky2::plonk::config::Hasher;
use plonky2::plonk::proof::ProofWithPublicInputs;
use plonky2::plonk::circuit_data::CircuitData;
use serde::{Deserialize, Serialize};

pub use mozak_recproofs::test_utils::{C, CONFIG, D, F};
pub type H = HashOut<F>;
pub type V = [u64; 4];

/// The field's order: words of values and addresses lie below it.
pub const P: u64 = 0xffff_ffff_0000_0001;

pub fn f(v: u64) -> F { F::from_canonical_u64(v % P) }
pub fn fs(v: V) -> [F; 4] { v.map(f) }
pub fn us(v: [F; 4]) -> V { v.map(|x| x.to_canonical_u64()) }
pub fn hash(v: &[F]) -> H { Poseidon2Hash::hash_no_pad(v) }
pub fn pair(l: H, r: H) -> H { hash(&[l.elements, r.elements].concat()) }
pub fn bytes_pair(l: H, r: H) -> H {
    let b: Vec<F> = l.elements.iter().chain(&r.elements).flat_map(|v| v.to_canonical_u64().to_le_bytes()).map(F::from_canonical_u8).collect();
    hash(&b)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Obj { pub owner: V, pub updated: u64, pub credits: u64, pub data: V }
impl Obj {
    pub fn hash(&self) -> H { hash(&[&fs(self.owner)[..], &[f(self.updated), f(self.credits)], &fs(self.data)].concat()) }
    pub fn real(&self) -> mozak_recproofs::Object<F> {
        mozak_recproofs::Object { constraint_owner: fs(self.owner), last_updated: f(self.updated), credits: f(self.credits), data: fs(self.data) }
    }
}
pub fn summary(addr: u64, old: H, new: H) -> H { hash(&[&[f(addr)][..], &old.elements, &new.elements].concat()) }

/// The proof, if the prover made one and its own circuit's verifier accepts it.
pub fn made(c: &CircuitData<F, C, D>, p: impl FnOnce() -> anyhow::Result<ProofWithPublicInputs<F, C, D>>) -> Result<ProofWithPublicInputs<F, C, D>, String> {
    let p = guarded(p)?.map_err(|e| e.to_string())?;
    c.verify(p.clone()).map_err(|e| e.to_string())?;
    Ok(p)
}
