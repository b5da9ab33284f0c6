use plonky2_maybe_rayon::*;
use crate::field::extension::{flatten, unflatten, Extendable};
use crate::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use crate::field::types::Field;
use crate::fri::proof::{FriInitialTreeProof, FriProof, FriQueryRound, FriQueryStep};
use crate::fri::{FriConfig, FriParams};
use crate::hash::hash_types::RichField;
use crate::hash::merkle_tree::MerkleTree;
use crate::iop::challenger::Challenger;
use crate::plonk::config::GenericConfig;
use crate::plonk::plonk_common::reduce_with_powers;
use crate::util::timing::TimingTree;
use crate::util::reverse_index_bits_in_place;

pub fn fri_proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    initial_merkle_trees: &[&MerkleTree<F, C::Hasher>], lde_polynomial_coeffs: PolynomialCoeffs<F::Extension>, lde_polynomial_values: PolynomialValues<F::Extension>,
    challenger: &mut Challenger<F, C::Hasher>, fri_params: &FriParams, _timing: &mut TimingTree,
) -> FriProof<F, C::Hasher, D> {
    let n = lde_polynomial_values.len();
    let (trees, final_coeffs) = fri_committed_trees::<F, C, D>(lde_polynomial_coeffs, lde_polynomial_values, challenger, fri_params);
    let pow_witness = fri_proof_of_work::<F, C, D>(challenger, &fri_params.config);
    let query_round_proofs = challenger.get_n_challenges(fri_params.config.num_query_rounds).into_iter().map(|rand| {
        let x_index = rand.to_canonical_u64() as usize % n;
        let initial = FriInitialTreeProof { evals_proofs: initial_merkle_trees.iter().map(|t| (t.get(x_index).to_vec(), t.prove(x_index))).collect() };
        FriQueryRound { initial_trees_proof: initial, steps: query_steps::<F, C, D>(&trees, x_index, fri_params) }
    }).collect();
    FriProof { commit_phase_merkle_caps: trees.iter().map(|t| t.cap.clone()).collect(), query_round_proofs, final_poly: final_coeffs, pow_witness }
}
pub(crate) fn query_steps<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(trees: &[MerkleTree<F, C::Hasher>], mut x_index: usize, fri_params: &FriParams) -> Vec<FriQueryStep<F, C::Hasher, D>> {
    trees.iter().enumerate().map(|(i, tree)| {
        let arity_bits = fri_params.reduction_arity_bits[i];
        let evals = unflatten(tree.get(x_index >> arity_bits));
        let merkle_proof = tree.prove(x_index >> arity_bits);
        x_index >>= arity_bits;
        FriQueryStep { evals, merkle_proof }
    }).collect()
}
pub(crate) fn commit_layer<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(values: &mut PolynomialValues<F::Extension>, arity: usize, cap_height: usize) -> MerkleTree<F, C::Hasher> {
    reverse_index_bits_in_place(&mut values.values);
    let chunked = values.values.chunks(arity).map(|c| flatten(c)).collect();
    MerkleTree::new(chunked, cap_height)
}
pub(crate) fn fold_coeffs<F: RichField + Extendable<D>, const D: usize>(coeffs: &PolynomialCoeffs<F::Extension>, arity: usize, beta: F::Extension) -> PolynomialCoeffs<F::Extension> {
    PolynomialCoeffs::new(coeffs.coeffs.chunks_exact(arity).map(|chunk| reduce_with_powers(chunk, beta)).collect())
}
fn fri_committed_trees<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    mut coeffs: PolynomialCoeffs<F::Extension>, mut values: PolynomialValues<F::Extension>, challenger: &mut Challenger<F, C::Hasher>, fri_params: &FriParams,
) -> (Vec<MerkleTree<F, C::Hasher>>, PolynomialCoeffs<F::Extension>) {
    let mut trees = Vec::new();
    let mut shift = F::MULTIPLICATIVE_GROUP_GENERATOR;
    for arity_bits in &fri_params.reduction_arity_bits {
        let arity = 1 << arity_bits;
        let tree = commit_layer::<F, C, D>(&mut values, arity, fri_params.config.cap_height);
        challenger.observe_cap(&tree.cap);
        trees.push(tree);
        let beta = challenger.get_extension_challenge::<D>();
        coeffs = fold_coeffs::<F, D>(&coeffs, arity, beta);
        shift = shift.exp_u64(arity as u64);
        values = coeffs.coset_fft(shift.into());
    }
    coeffs.coeffs.truncate(coeffs.len() >> fri_params.config.rate_bits);
    challenger.observe_extension_elements(&coeffs.coeffs);
    (trees, coeffs)
}
pub(crate) fn fri_proof_of_work<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(challenger: &mut Challenger<F, C::Hasher>, config: &FriConfig) -> F {
    let min_leading_zeros = config.proof_of_work_bits;
    let mut w = 0u64;
    loop {
        let cand = F::from_canonical_u64(w);
        let mut c = challenger.clone();
        c.observe_element(cand);
        if c.get_challenge().to_canonical_u64().leading_zeros() >= min_leading_zeros {
            break;
        }
        w += 1;
    }
    let cand = F::from_canonical_u64(w);
    challenger.observe_element(cand);
    let _ = challenger.get_challenge();
    cand
}
