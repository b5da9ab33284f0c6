use anyhow::Result;
use serde::{Deserialize, Serialize};
use crate::field::extension::Extendable;
use crate::hash::hash_types::{HashOut, HashOutTarget, RichField};
use crate::iop::target::Target;
use crate::plonk::circuit_data::CommonCircuitData;
use crate::plonk::config::{GenericConfig, GenericHashOut};

/// Stand-in for a PLONK proof: a tag binding verifier key, shape and public inputs, only issued for satisfying witnesses.
#[derive(Serialize, Deserialize, Clone, Debug, Eq, PartialEq)]
#[serde(bound = "")]
pub struct Proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub tag: HashOut<F>,
    #[serde(skip)]
    pub _c: core::marker::PhantomData<fn() -> C>,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct ProofTarget<const D: usize> { pub tag: HashOutTarget }
#[derive(Serialize, Deserialize, Clone, Debug, Eq, PartialEq)]
#[serde(bound = "")]
pub struct ProofWithPublicInputs<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub proof: Proof<F, C, D>,
    pub public_inputs: Vec<F>,
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> ProofWithPublicInputs<F, C, D> {
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = self.proof.tag.to_bytes();
        for p in &self.public_inputs { v.extend(p.to_canonical_u64().to_le_bytes()); }
        v
    }
    pub fn from_bytes(bytes: Vec<u8>, common: &CommonCircuitData<F, D>) -> Result<Self> {
        anyhow::ensure!(bytes.len() == 32 + 8 * common.num_public_inputs, "wrong proof length");
        let w: Vec<F> = bytes.chunks(8).map(|c| F::from_noncanonical_u64(u64::from_le_bytes(c.try_into().unwrap()))).collect();
        Ok(Self { proof: Proof { tag: HashOut::from_vec(w[..4].to_vec()), _c: core::marker::PhantomData }, public_inputs: w[4..].to_vec() })
    }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct ProofWithPublicInputsTarget<const D: usize> {
    pub proof: ProofTarget<D>,
    pub public_inputs: Vec<Target>,
}
