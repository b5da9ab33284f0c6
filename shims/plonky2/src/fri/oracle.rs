use plonky2_maybe_rayon::*;
use crate::field::extension::Extendable;
use crate::field::fft::FftRootTable;
use crate::field::packed::PackedField;
use crate::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use crate::field::types::Field;
use crate::fri::proof::FriProof;
use crate::fri::prover::fri_proof;
use crate::fri::structure::{FriBatchInfo, FriInstanceInfo};
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_tree::MerkleTree;
use crate::iop::challenger::Challenger;
use crate::plonk::config::GenericConfig;
use crate::util::reducing::ReducingFactor;
use crate::util::timing::TimingTree;
use crate::util::{log2_strict, reverse_bits, reverse_index_bits_in_place, transpose};

pub const SALT_SIZE: usize = 4;

#[derive(Eq, PartialEq, Debug, Clone)]
pub struct PolynomialBatch<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub polynomials: Vec<PolynomialCoeffs<F>>,
    pub merkle_tree: MerkleTree<F, C::Hasher>,
    pub degree_log: usize,
    pub rate_bits: usize,
    pub blinding: bool,
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> Default for PolynomialBatch<F, C, D> {
    fn default() -> Self { PolynomialBatch { polynomials: Vec::new(), merkle_tree: MerkleTree::default(), degree_log: 0, rate_bits: 0, blinding: false } }
}
pub(crate) fn lde_values<F: RichField>(polynomials: &[PolynomialCoeffs<F>], rate_bits: usize) -> Vec<Vec<F>> {
    polynomials.par_iter().map(|p| p.lde(rate_bits).coset_fft_with_options(F::coset_shift(), Some(rate_bits), None).values).collect()
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> PolynomialBatch<F, C, D> {
    pub fn from_values(values: Vec<PolynomialValues<F>>, rate_bits: usize, blinding: bool, cap_height: usize, timing: &mut TimingTree, t: Option<&FftRootTable<F>>) -> Self {
        let coeffs = values.into_par_iter().map(|v| v.ifft()).collect::<Vec<_>>();
        Self::from_coeffs(coeffs, rate_bits, blinding, cap_height, timing, t)
    }
    pub fn from_coeffs(polynomials: Vec<PolynomialCoeffs<F>>, rate_bits: usize, blinding: bool, cap_height: usize, _timing: &mut TimingTree, _t: Option<&FftRootTable<F>>) -> Self {
        assert!(!blinding, "stand-in: no blinding");
        let degree = polynomials[0].len();
        assert!(polynomials.iter().all(|p| p.len() == degree), "Polynomials have different degrees");
        let lde = lde_values(&polynomials, rate_bits);
        let mut leaves = transpose(&lde);
        reverse_index_bits_in_place(&mut leaves);
        let merkle_tree = MerkleTree::new(leaves, cap_height);
        Self { polynomials, merkle_tree, degree_log: log2_strict(degree), rate_bits, blinding }
    }
    pub fn get_lde_values(&self, index: usize, step: usize) -> &[F] {
        let index = index * step;
        let index = reverse_bits(index, self.degree_log + self.rate_bits);
        &self.merkle_tree.leaves[index]
    }
    pub fn get_lde_values_packed<P: PackedField<Scalar = F>>(&self, index_start: usize, step: usize) -> Vec<P> {
        let row_wise: Vec<&[F]> = (0..P::WIDTH).map(|i| self.get_lde_values(index_start + i, step)).collect();
        let leaf_size = row_wise[0].len();
        (0..leaf_size).map(|j| {
            let mut packed = P::ZEROS;
            packed.as_slice_mut().iter_mut().zip(&row_wise).for_each(|(p, r)| *p = r[j]);
            packed
        }).collect()
    }
    pub fn prove_openings(instance: &FriInstanceInfo<F, D>, oracles: &[&Self], challenger: &mut Challenger<F, C::Hasher>, fri_params: &FriParams, timing: &mut TimingTree) -> FriProof<F, C::Hasher, D> {
        let alpha = challenger.get_extension_challenge::<D>();
        let final_poly = combine_instance::<F, D>(instance, alpha, |o, p| &oracles[o].polynomials[p]);
        let lde_final_poly = final_poly.lde(fri_params.config.rate_bits);
        let lde_final_values = lde_final_poly.coset_fft(F::coset_shift().into());
        fri_proof::<F, C, D>(&oracles.iter().map(|c| &c.merkle_tree).collect::<Vec<_>>(), lde_final_poly, lde_final_values, challenger, fri_params, timing)
    }
}
/// `sum_batches alpha^(k_i) * (sum_j alpha^j f_ij(X) - sum_j alpha^j f_ij(z_i)) / (X - z_i)`
pub(crate) fn combine_instance<'a, F: RichField + Extendable<D>, const D: usize>(
    instance: &FriInstanceInfo<F, D>, alpha: F::Extension, get: impl Fn(usize, usize) -> &'a PolynomialCoeffs<F>,
) -> PolynomialCoeffs<F::Extension> {
    let mut alpha = ReducingFactor::new(alpha);
    let mut final_poly = PolynomialCoeffs::empty();
    for FriBatchInfo { point, polynomials } in &instance.batches {
        let polys_coeff = polynomials.iter().map(|p| get(p.oracle_index, p.polynomial_index));
        let composition_poly = alpha.reduce_polys_base(polys_coeff);
        let mut quotient = composition_poly.divide_by_linear(*point);
        quotient.coeffs.push(F::Extension::ZERO);
        alpha.shift_poly(&mut final_poly);
        final_poly += quotient;
    }
    final_poly
}
