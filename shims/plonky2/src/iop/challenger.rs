use core::marker::PhantomData;

use crate::field::extension::{Extendable, FieldExtension};
use crate::field::polynomial::PolynomialCoeffs;
use crate::field::types::Field;
use crate::fri::proof::{FriChallenges, FriChallengesTarget};
use crate::fri::structure::{FriOpenings, FriOpeningsTarget};
use crate::fri::FriConfig;
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::hashing::PlonkyPermutation;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::Target;
use crate::gadgets::polynomial::PolynomialCoeffsExtTarget;
use crate::plonk::circuit_builder::CircuitBuilder;
use crate::plonk::config::{AlgebraicHasher, GenericConfig, GenericHashOut, Hasher};

/// Observes prover messages, and generates challenges by hashing the transcript, a la Fiat-Shamir.
#[derive(Clone, Debug)]
pub struct Challenger<F: RichField, H: Hasher<F>> {
    pub sponge_state: H::Permutation,
    pub input_buffer: Vec<F>,
    output_buffer: Vec<F>,
}
impl<F: RichField, H: Hasher<F>> Default for Challenger<F, H> { fn default() -> Self { Self::new() } }
impl<F: RichField, H: Hasher<F>> Challenger<F, H> {
    pub fn new() -> Challenger<F, H> {
        Challenger {
            sponge_state: H::Permutation::new(core::iter::repeat(F::ZERO)),
            input_buffer: vec![],
            output_buffer: vec![],
        }
    }
    pub fn observe_element(&mut self, element: F) {
        self.output_buffer.clear();
        self.input_buffer.push(element);
        if self.input_buffer.len() == H::Permutation::RATE { self.duplexing(); }
    }
    pub fn observe_extension_element<const D: usize>(&mut self, element: &F::Extension) where F: RichField + Extendable<D> {
        self.observe_elements(&element.to_basefield_array());
    }
    pub fn observe_elements(&mut self, elements: &[F]) { for &e in elements { self.observe_element(e); } }
    pub fn observe_extension_elements<const D: usize>(&mut self, elements: &[F::Extension]) where F: RichField + Extendable<D> {
        for e in elements { self.observe_extension_element(e); }
    }
    pub fn observe_openings<const D: usize>(&mut self, openings: &FriOpenings<F, D>) where F: RichField + Extendable<D> {
        for v in &openings.batches { self.observe_extension_elements(&v.values); }
    }
    pub fn observe_hash<OH: Hasher<F>>(&mut self, hash: OH::Hash) { self.observe_elements(&hash.to_vec()) }
    pub fn observe_cap<OH: Hasher<F>>(&mut self, cap: &MerkleCap<F, OH>) { for &hash in &cap.0 { self.observe_hash::<OH>(hash); } }
    pub fn get_challenge(&mut self) -> F {
        if !self.input_buffer.is_empty() || self.output_buffer.is_empty() { self.duplexing(); }
        self.output_buffer.pop().expect("Output buffer should be non-empty")
    }
    pub fn get_n_challenges(&mut self, n: usize) -> Vec<F> { (0..n).map(|_| self.get_challenge()).collect() }
    pub fn get_hash(&mut self) -> HashOut<F> {
        HashOut { elements: [self.get_challenge(), self.get_challenge(), self.get_challenge(), self.get_challenge()] }
    }
    pub fn get_extension_challenge<const D: usize>(&mut self) -> F::Extension where F: RichField + Extendable<D> {
        let mut arr = [F::ZERO; D];
        arr.copy_from_slice(&self.get_n_challenges(D));
        F::Extension::from_basefield_array(arr)
    }
    pub fn get_n_extension_challenges<const D: usize>(&mut self, n: usize) -> Vec<F::Extension> where F: RichField + Extendable<D> {
        (0..n).map(|_| self.get_extension_challenge::<D>()).collect()
    }
    fn duplexing(&mut self) {
        let input = core::mem::take(&mut self.input_buffer);
        self.sponge_state.set_from_iter(input, 0);
        self.sponge_state.permute();
        self.output_buffer.clear();
        self.output_buffer.extend_from_slice(self.sponge_state.squeeze());
    }
    pub fn compact(&mut self) -> H::Permutation {
        if !self.input_buffer.is_empty() { self.duplexing(); }
        self.output_buffer.clear();
        self.sponge_state
    }
    pub fn fri_challenges<C: GenericConfig<D, F = F>, const D: usize>(
        &mut self, commit_phase_merkle_caps: &[MerkleCap<F, C::Hasher>], final_poly: &PolynomialCoeffs<F::Extension>, pow_witness: F, degree_bits: usize, config: &FriConfig,
    ) -> FriChallenges<F, D> where F: RichField + Extendable<D> {
        let num_fri_queries = config.num_query_rounds;
        let lde_size = 1 << (degree_bits + config.rate_bits);
        let fri_alpha = self.get_extension_challenge::<D>();
        let fri_betas = commit_phase_merkle_caps.iter().map(|cap| {
            self.observe_cap::<C::Hasher>(cap);
            self.get_extension_challenge::<D>()
        }).collect();
        self.observe_extension_elements(&final_poly.coeffs);
        self.observe_element(pow_witness);
        let fri_pow_response = self.get_challenge();
        let fri_query_indices = (0..num_fri_queries).map(|_| self.get_challenge().to_canonical_u64() as usize % lde_size).collect();
        FriChallenges { fri_alpha, fri_betas, fri_pow_response, fri_query_indices }
    }
}

pub struct RecursiveChallenger<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> {
    sponge_state: H::AlgebraicPermutation,
    input_buffer: Vec<Target>,
    output_buffer: Vec<Target>,
    __: PhantomData<(F, H)>,
}
impl<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> RecursiveChallenger<F, H, D> {
    pub fn new(builder: &mut CircuitBuilder<F, D>) -> Self {
        let zero = builder.zero();
        Self::from_state(H::AlgebraicPermutation::new(core::iter::repeat(zero)))
    }
    pub fn from_state(sponge_state: H::AlgebraicPermutation) -> Self {
        Self { sponge_state, input_buffer: vec![], output_buffer: vec![], __: PhantomData }
    }
    pub fn observe_element(&mut self, target: Target) {
        self.output_buffer.clear();
        self.input_buffer.push(target);
    }
    pub fn observe_elements(&mut self, targets: &[Target]) { for &t in targets { self.observe_element(t); } }
    pub fn observe_hash(&mut self, hash: &HashOutTarget) { self.observe_elements(&hash.elements) }
    pub fn observe_cap(&mut self, cap: &MerkleCapTarget) { for h in &cap.0 { self.observe_hash(h) } }
    pub fn observe_extension_element(&mut self, e: ExtensionTarget<D>) { self.observe_elements(&e.0); }
    pub fn observe_extension_elements(&mut self, es: &[ExtensionTarget<D>]) { for &e in es { self.observe_extension_element(e); } }
    pub fn observe_openings(&mut self, openings: &FriOpeningsTarget<D>) { for v in &openings.batches { self.observe_extension_elements(&v.values); } }
    pub fn get_challenge(&mut self, builder: &mut CircuitBuilder<F, D>) -> Target {
        self.absorb_buffered_inputs(builder);
        if self.output_buffer.is_empty() {
            self.sponge_state = builder.permute::<H>(self.sponge_state);
            self.output_buffer = self.sponge_state.squeeze().to_vec();
        }
        self.output_buffer.pop().unwrap()
    }
    pub fn get_n_challenges(&mut self, builder: &mut CircuitBuilder<F, D>, n: usize) -> Vec<Target> { (0..n).map(|_| self.get_challenge(builder)).collect() }
    pub fn get_hash(&mut self, builder: &mut CircuitBuilder<F, D>) -> HashOutTarget {
        HashOutTarget { elements: core::array::from_fn(|_| self.get_challenge(builder)) }
    }
    pub fn get_extension_challenge(&mut self, builder: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> {
        self.get_n_challenges(builder, D).try_into().unwrap()
    }
    fn absorb_buffered_inputs(&mut self, builder: &mut CircuitBuilder<F, D>) {
        if self.input_buffer.is_empty() { return; }
        for input_chunk in self.input_buffer.chunks(H::AlgebraicPermutation::RATE) {
            self.sponge_state.set_from_slice(input_chunk, 0);
            self.sponge_state = builder.permute::<H>(self.sponge_state);
        }
        self.output_buffer = self.sponge_state.squeeze().to_vec();
        self.input_buffer.clear();
    }
    pub fn compact(&mut self, builder: &mut CircuitBuilder<F, D>) -> H::AlgebraicPermutation {
        self.absorb_buffered_inputs(builder);
        self.output_buffer.clear();
        self.sponge_state
    }
    pub fn fri_challenges(
        &mut self, builder: &mut CircuitBuilder<F, D>, commit_phase_merkle_caps: &[MerkleCapTarget], final_poly: &PolynomialCoeffsExtTarget<D>, pow_witness: Target, inner_fri_config: &FriConfig,
    ) -> FriChallengesTarget<D> {
        let fri_alpha = self.get_extension_challenge(builder);
        let fri_betas = commit_phase_merkle_caps.iter().map(|cap| {
            self.observe_cap(cap);
            self.get_extension_challenge(builder)
        }).collect();
        self.observe_extension_elements(&final_poly.0);
        self.observe_element(pow_witness);
        let fri_pow_response = self.get_challenge(builder);
        let fri_query_indices = (0..inner_fri_config.num_query_rounds).map(|_| self.get_challenge(builder)).collect();
        FriChallengesTarget { fri_alpha, fri_betas, fri_pow_response, fri_query_indices }
    }
}
