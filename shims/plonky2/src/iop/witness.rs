use std::collections::HashMap;

use crate::field::extension::{Extendable, FieldExtension};
use crate::field::types::Field;
use crate::fri::structure::{FriOpenings, FriOpeningsTarget};
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::{BoolTarget, Target};
use crate::plonk::circuit_data::{VerifierCircuitTarget, VerifierOnlyCircuitData};
use crate::plonk::config::{AlgebraicHasher, GenericConfig};
use crate::plonk::proof::{ProofWithPublicInputs, ProofWithPublicInputsTarget};

pub trait WitnessWrite<F: Field> {
    fn set_target(&mut self, target: Target, value: F);
    fn set_target_arr(&mut self, targets: &[Target], values: &[F]) where F: RichField {
        assert_eq!(targets.len(), values.len());
        for (&t, &v) in targets.iter().zip(values) { self.set_target(t, v); }
    }
    fn set_hash_target(&mut self, ht: HashOutTarget, value: HashOut<F>) {
        for (t, v) in ht.elements.into_iter().zip(value.elements) { self.set_target(t, v); }
    }
    fn set_cap_target<H: AlgebraicHasher<F>>(&mut self, ct: &MerkleCapTarget, value: &MerkleCap<F, H>) where F: RichField {
        for (ht, h) in ct.0.iter().zip(&value.0) { self.set_hash_target(*ht, *h); }
    }
    fn set_extension_target<const D: usize>(&mut self, et: ExtensionTarget<D>, value: F::Extension) where F: RichField + Extendable<D> {
        self.set_target_arr(&et.0, &value.to_basefield_array());
    }
    fn set_extension_targets<const D: usize>(&mut self, ets: &[ExtensionTarget<D>], values: &[F::Extension]) where F: RichField + Extendable<D> {
        assert_eq!(ets.len(), values.len());
        for (&e, &v) in ets.iter().zip(values) { self.set_extension_target(e, v); }
    }
    fn set_bool_target(&mut self, target: BoolTarget, value: bool) { self.set_target(target.target, F::from_bool(value)) }
    fn set_fri_openings<const D: usize>(&mut self, t: &FriOpeningsTarget<D>, o: &FriOpenings<F, D>) where F: RichField + Extendable<D> {
        assert_eq!(t.batches.len(), o.batches.len());
        for (a, b) in t.batches.iter().zip(&o.batches) {
            assert_eq!(a.values.len(), b.values.len());
            self.set_extension_targets(&a.values, &b.values);
        }
    }
    fn set_proof_with_pis_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, t: &ProofWithPublicInputsTarget<D>, p: &ProofWithPublicInputs<F, C, D>)
    where F: RichField + Extendable<D>, C::Hasher: AlgebraicHasher<F> {
        assert_eq!(t.public_inputs.len(), p.public_inputs.len());
        for (&pi_t, &pi) in t.public_inputs.iter().zip(&p.public_inputs) { self.set_target(pi_t, pi); }
        self.set_hash_target(t.proof.tag, p.proof.tag);
    }
    fn set_verifier_data_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, vt: &VerifierCircuitTarget, vd: &VerifierOnlyCircuitData<C, D>)
    where F: RichField + Extendable<D>, C::Hasher: AlgebraicHasher<F> {
        self.set_cap_target(&vt.constants_sigmas_cap, &vd.constants_sigmas_cap);
        self.set_hash_target(vt.circuit_digest, vd.circuit_digest);
    }
    fn set_target_values(&mut self, v: &[(Target, F)]) { for (a, b) in v { self.set_target(*a, *b) } }
}

pub trait Witness<F: Field>: WitnessWrite<F> {
    fn try_get_target(&self, target: Target) -> Option<F>;
    fn get_target(&self, target: Target) -> F { self.try_get_target(target).unwrap() }
    fn get_targets(&self, targets: &[Target]) -> Vec<F> { targets.iter().map(|&t| self.get_target(t)).collect() }
    fn get_bool_target(&self, target: BoolTarget) -> bool { self.get_target(target.target) == F::ONE }
    fn get_hash_target(&self, ht: HashOutTarget) -> HashOut<F> { HashOut { elements: ht.elements.map(|t| self.get_target(t)) } }
    fn contains(&self, target: Target) -> bool { self.try_get_target(target).is_some() }
}

#[derive(Clone, Debug, Default)]
pub struct PartialWitness<F: Field> { pub target_values: HashMap<Target, F> }
impl<F: Field> PartialWitness<F> { pub fn new() -> Self { Self { target_values: HashMap::new() } } }
impl<F: Field> WitnessWrite<F> for PartialWitness<F> {
    fn set_target(&mut self, target: Target, value: F) {
        let opt_old_value = self.target_values.insert(target, value);
        if let Some(old_value) = opt_old_value {
            assert_eq!(value, old_value, "Target {:?} was set twice with different values: {} != {}", target, old_value, value);
        }
    }
}
impl<F: Field> Witness<F> for PartialWitness<F> {
    fn try_get_target(&self, target: Target) -> Option<F> { self.target_values.get(&target).copied() }
}
