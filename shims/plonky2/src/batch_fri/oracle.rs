use plonky2_maybe_rayon::*;
use crate::field::extension::Extendable;
use crate::field::fft::FftRootTable;
use crate::field::packed::PackedField;
use crate::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use crate::field::types::Field;
use crate::fri::oracle::{combine_instance, lde_values};
use crate::fri::proof::{FriInitialTreeProof, FriProof, FriQueryRound};
use crate::fri::prover::{commit_layer, fold_coeffs, fri_proof_of_work, query_steps};
use crate::fri::structure::FriInstanceInfo;
use crate::fri::FriParams;
use crate::hash::batch_merkle_tree::BatchMerkleTree;
use crate::hash::hash_types::RichField;
use crate::iop::challenger::Challenger;
use crate::plonk::config::GenericConfig;
use crate::util::timing::TimingTree;
use crate::util::{log2_strict, reverse_bits, reverse_index_bits_in_place, transpose};

#[derive(Eq, PartialEq, Debug)]
pub struct BatchFriOracle<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub polynomials: Vec<PolynomialCoeffs<F>>,
    pub batch_merkle_tree: BatchMerkleTree<F, C::Hasher>,
    /// degree bits of each leaf layer, decreasing
    pub degree_bits: Vec<usize>,
    pub rate_bits: usize,
    pub blinding: bool,
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> BatchFriOracle<F, C, D> {
    pub fn from_values(values: Vec<PolynomialValues<F>>, rate_bits: usize, blinding: bool, cap_height: usize, timing: &mut TimingTree, t: &[Option<&FftRootTable<F>>]) -> Self {
        let coeffs = values.into_par_iter().map(|v| v.ifft()).collect::<Vec<_>>();
        Self::from_coeffs(coeffs, rate_bits, blinding, cap_height, timing, t)
    }
    pub fn from_coeffs(polynomials: Vec<PolynomialCoeffs<F>>, rate_bits: usize, blinding: bool, cap_height: usize, _timing: &mut TimingTree, _t: &[Option<&FftRootTable<F>>]) -> Self {
        assert!(!blinding);
        assert!(polynomials.windows(2).all(|w| w[0].len() >= w[1].len()), "polynomials must be sorted by degree");
        let mut degree_bits: Vec<usize> = polynomials.iter().map(|p| log2_strict(p.len())).collect();
        degree_bits.dedup();
        let layers = degree_bits.iter().map(|d| {
            let group: Vec<PolynomialCoeffs<F>> = polynomials.iter().filter(|p| p.len() == 1 << d).cloned().collect();
            let mut leaves = transpose(&lde_values(&group, rate_bits));
            reverse_index_bits_in_place(&mut leaves);
            leaves
        }).collect();
        let batch_merkle_tree = BatchMerkleTree::new(layers, cap_height);
        Self { polynomials, batch_merkle_tree, degree_bits, rate_bits, blinding }
    }
    pub fn get_lde_values(&self, degree_bits_index: usize, index: usize, step: usize, slice_start: usize, slice_len: usize) -> &[F] {
        let index = reverse_bits(index * step, self.degree_bits[degree_bits_index] + self.rate_bits);
        &self.batch_merkle_tree.leaves[degree_bits_index][index][slice_start..slice_start + slice_len]
    }
    pub fn get_lde_values_packed<P: PackedField<Scalar = F>>(&self, degree_bits_index: usize, index_start: usize, step: usize, slice_start: usize, slice_len: usize) -> Vec<P> {
        let rows: Vec<&[F]> = (0..P::WIDTH).map(|i| self.get_lde_values(degree_bits_index, index_start + i, step, slice_start, slice_len)).collect();
        (0..slice_len).map(|j| {
            let mut packed = P::ZEROS;
            packed.as_slice_mut().iter_mut().zip(&rows).for_each(|(p, r)| *p = r[j]);
            packed
        }).collect()
    }
    pub fn prove_openings(degree_bits: &[usize], instances: &[FriInstanceInfo<F, D>], oracles: &[&Self], challenger: &mut Challenger<F, C::Hasher>, fri_params: &FriParams, _timing: &mut TimingTree) -> FriProof<F, C::Hasher, D> {
        assert_eq!(degree_bits.len(), instances.len());
        assert!(degree_bits.windows(2).all(|w| w[0] > w[1]));
        let alpha = challenger.get_extension_challenge::<D>();
        let mut finals: Vec<PolynomialCoeffs<F::Extension>> = instances.iter().zip(degree_bits).map(|(ins, d)| {
            let mut p = combine_instance::<F, D>(ins, alpha, |o, i| &oracles[o].polynomials[i]);
            p.coeffs.resize(1 << d, F::Extension::ZERO);
            p.lde(fri_params.config.rate_bits)
        }).collect();
        let n = finals[0].len();
        let mut coeffs = finals[0].clone();
        let mut shift = F::MULTIPLICATIVE_GROUP_GENERATOR;
        let mut values = coeffs.coset_fft(shift.into());
        let mut trees = Vec::new();
        let mut next = 1;
        for arity_bits in &fri_params.reduction_arity_bits {
            let arity = 1 << arity_bits;
            let tree = commit_layer::<F, C, D>(&mut values, arity, fri_params.config.cap_height);
            challenger.observe_cap(&tree.cap);
            trees.push(tree);
            let beta = challenger.get_extension_challenge::<D>();
            coeffs = fold_coeffs::<F, D>(&coeffs, arity, beta);
            shift = shift.exp_u64(arity as u64);
            if next < finals.len() && finals[next].len() == coeffs.len() {
                // f := beta * f + g, with g moved onto the shifted coset.
                let g_shift = F::MULTIPLICATIVE_GROUP_GENERATOR;
                let g_vals = finals[next].coset_fft(g_shift.into());
                let mut f_vals = coeffs.coset_fft(shift.into());
                for (a, b) in f_vals.values.iter_mut().zip(&g_vals.values) { *a = *a * beta + *b; }
                coeffs = f_vals.coset_ifft(shift.into());
                next += 1;
            }
            values = coeffs.coset_fft(shift.into());
        }
        assert_eq!(next, finals.len(), "reduction arities skip an instance degree");
        coeffs.coeffs.truncate(coeffs.len() >> fri_params.config.rate_bits);
        challenger.observe_extension_elements(&coeffs.coeffs);
        let pow_witness = fri_proof_of_work::<F, C, D>(challenger, &fri_params.config);
        let query_round_proofs = challenger.get_n_challenges(fri_params.config.num_query_rounds).into_iter().map(|rand| {
            let x_index = rand.to_canonical_u64() as usize % n;
            let evals_proofs = oracles.iter().map(|t| (t.batch_merkle_tree.values(x_index).into_iter().flatten().collect(), t.batch_merkle_tree.open_batch(x_index))).collect();
            FriQueryRound { initial_trees_proof: FriInitialTreeProof { evals_proofs }, steps: query_steps::<F, C, D>(&trees, x_index, fri_params) }
        }).collect();
        FriProof { commit_phase_merkle_caps: trees.iter().map(|t| t.cap.clone()).collect(), query_round_proofs, final_poly: coeffs, pow_witness }
    }
}
