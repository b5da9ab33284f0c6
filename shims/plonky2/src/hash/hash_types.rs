use core::fmt::Debug;
use rand::RngCore;
use serde::{Deserialize, Serialize};

use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::{Field, PrimeField64, Sample};
use crate::hash::poseidon::Poseidon;
use crate::hash::poseidon2::Poseidon2;
use crate::iop::target::Target;
use crate::plonk::config::GenericHashOut;

pub trait RichField: PrimeField64 + Poseidon + Poseidon2 {}
impl RichField for GoldilocksField {}

pub const NUM_HASH_OUT_ELTS: usize = 4;

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct HashOut<F: Field> {
    pub elements: [F; NUM_HASH_OUT_ELTS],
}
impl<F: Field> HashOut<F> {
    pub const ZERO: Self = Self { elements: [F::ZERO; NUM_HASH_OUT_ELTS] };
    pub fn from_vec(elements: Vec<F>) -> Self { Self { elements: elements.try_into().unwrap() } }
    pub fn from_partial(elements_in: &[F]) -> Self {
        let mut elements = [F::ZERO; NUM_HASH_OUT_ELTS];
        elements[0..elements_in.len()].copy_from_slice(elements_in);
        Self { elements }
    }
}
impl<F: Field> From<[F; NUM_HASH_OUT_ELTS]> for HashOut<F> {
    fn from(elements: [F; NUM_HASH_OUT_ELTS]) -> Self { Self { elements } }
}
impl<F: Field> TryFrom<&[F]> for HashOut<F> {
    type Error = anyhow::Error;
    fn try_from(elements: &[F]) -> Result<Self, Self::Error> {
        anyhow::ensure!(elements.len() == NUM_HASH_OUT_ELTS);
        Ok(Self { elements: elements.try_into().unwrap() })
    }
}
impl<F: Field> Sample for HashOut<F> {
    fn sample<R>(rng: &mut R) -> Self where R: RngCore + ?Sized {
        Self { elements: core::array::from_fn(|_| F::sample(rng)) }
    }
}
impl<F: Field> Default for HashOut<F> { fn default() -> Self { Self::ZERO } }
impl<F: RichField> GenericHashOut<F> for HashOut<F> {
    fn to_bytes(&self) -> Vec<u8> { self.elements.into_iter().flat_map(|x| x.to_canonical_u64().to_le_bytes()).collect() }
    fn from_bytes(bytes: &[u8]) -> Self {
        HashOut {
            elements: bytes.chunks(8).take(NUM_HASH_OUT_ELTS)
                .map(|x| F::from_noncanonical_u64(u64::from_le_bytes(x.try_into().unwrap())))
                .collect::<Vec<_>>().try_into().unwrap(),
        }
    }
    fn to_vec(&self) -> Vec<F> { self.elements.to_vec() }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct HashOutTarget {
    pub elements: [Target; NUM_HASH_OUT_ELTS],
}
impl HashOutTarget {
    pub fn from_vec(elements: Vec<Target>) -> Self { Self { elements: elements.try_into().unwrap() } }
    pub fn from_partial(elements_in: &[Target], zero: Target) -> Self {
        let mut elements = [zero; NUM_HASH_OUT_ELTS];
        elements[0..elements_in.len()].copy_from_slice(elements_in);
        Self { elements }
    }
}
impl From<[Target; NUM_HASH_OUT_ELTS]> for HashOutTarget {
    fn from(elements: [Target; NUM_HASH_OUT_ELTS]) -> Self { Self { elements } }
}
impl TryFrom<&[Target]> for HashOutTarget {
    type Error = anyhow::Error;
    fn try_from(elements: &[Target]) -> Result<Self, Self::Error> {
        anyhow::ensure!(elements.len() == NUM_HASH_OUT_ELTS);
        Ok(Self { elements: elements.try_into().unwrap() })
    }
}
impl IntoIterator for HashOutTarget {
    type Item = Target;
    type IntoIter = core::array::IntoIter<Target, NUM_HASH_OUT_ELTS>;
    fn into_iter(self) -> Self::IntoIter { self.elements.into_iter() }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MerkleCapTarget(pub Vec<HashOutTarget>);
