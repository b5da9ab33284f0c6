use anyhow::{ensure, Result};
use crate::field::extension::{flatten, Extendable, FieldExtension};
use crate::field::types::Field;
use crate::fri::proof::{FriChallenges, FriInitialTreeProof, FriProof};
use crate::fri::structure::{FriBatchInfo, FriInstanceInfo, FriOpenings};
use crate::fri::{FriConfig, FriParams};
use crate::hash::hash_types::RichField;
use crate::hash::merkle_proofs::verify_merkle_proof_to_cap;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::{GenericConfig, Hasher};
use crate::util::reducing::ReducingFactor;
use crate::util::{log2_strict, reverse_bits, reverse_index_bits_in_place};

/// Interpolates the degree < arity polynomial through the coset points and evaluates it at beta.
pub(crate) fn compute_evaluation<F: Field + Extendable<D>, const D: usize>(x: F, x_index_within_coset: usize, arity_bits: usize, evals: &[F::Extension], beta: F::Extension) -> F::Extension {
    let arity = 1 << arity_bits;
    let g = F::primitive_root_of_unity(arity_bits);
    let mut evals = evals.to_vec();
    reverse_index_bits_in_place(&mut evals);
    let rev = reverse_bits(x_index_within_coset, arity_bits);
    let coset_start = x * g.exp_u64((arity - rev) as u64);
    let points: Vec<F::Extension> = g.powers().take(arity).map(|y| (coset_start * y).into()).collect();
    // Lagrange
    let mut acc = F::Extension::ZERO;
    for i in 0..arity {
        let mut num = F::Extension::ONE;
        let mut den = F::Extension::ONE;
        for j in 0..arity {
            if i != j { num *= beta - points[j]; den *= points[i] - points[j]; }
        }
        acc += evals[i] * num * den.inverse();
    }
    acc
}
pub(crate) fn fri_verify_proof_of_work<F: RichField + Extendable<D>, const D: usize>(r: F, config: &FriConfig) -> Result<()> {
    ensure!(r.to_canonical_u64().leading_zeros() >= config.proof_of_work_bits, "Invalid proof of work witness.");
    Ok(())
}
pub(crate) fn validate_common<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(proof: &FriProof<F, C::Hasher, D>, params: &FriParams) -> Result<()> {
    let cap_height = params.config.cap_height;
    ensure!(proof.commit_phase_merkle_caps.len() == params.reduction_arity_bits.len());
    for cap in &proof.commit_phase_merkle_caps { ensure!(cap.len() == 1 << cap_height); }
    for q in &proof.query_round_proofs {
        ensure!(q.steps.len() == params.reduction_arity_bits.len());
        let mut bits = params.lde_bits();
        for (step, arity_bits) in q.steps.iter().zip(&params.reduction_arity_bits) {
            bits -= arity_bits;
            ensure!(step.evals.len() == 1 << arity_bits);
            ensure!(step.merkle_proof.len() + cap_height == bits);
        }
    }
    ensure!(proof.final_poly.len() == params.final_poly_len());
    ensure!(proof.query_round_proofs.len() == params.config.num_query_rounds, "Number of query rounds does not match config.");
    Ok(())
}
pub fn verify_fri_proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    instance: &FriInstanceInfo<F, D>, openings: &FriOpenings<F, D>, challenges: &FriChallenges<F, D>, initial_merkle_caps: &[MerkleCap<F, C::Hasher>], proof: &FriProof<F, C::Hasher, D>, params: &FriParams,
) -> Result<()> {
    validate_common::<F, C, D>(proof, params)?;
    let n = params.lde_size();
    ensure!(openings.batches.len() == instance.batches.len());
    for (o, b) in openings.batches.iter().zip(&instance.batches) { ensure!(o.values.len() == b.polynomials.len()); }
    fri_verify_proof_of_work(challenges.fri_pow_response, &params.config)?;
    let precomputed = reduced_openings(openings, challenges.fri_alpha);
    for (&x_index, round) in challenges.fri_query_indices.iter().zip(&proof.query_round_proofs) {
        let init = &round.initial_trees_proof;
        ensure!(init.evals_proofs.len() == initial_merkle_caps.len());
        for (((evals, mp), cap), oracle) in init.evals_proofs.iter().zip(initial_merkle_caps).zip(&instance.oracles) {
            ensure!(evals.len() == oracle.num_polys);
            ensure!(mp.len() + params.config.cap_height == params.lde_bits());
            verify_merkle_proof_to_cap::<F, C::Hasher>(evals.clone(), x_index, cap, mp)?;
        }
        let log_n = log2_strict(n);
        let subgroup_x = F::MULTIPLICATIVE_GROUP_GENERATOR * F::primitive_root_of_unity(log_n).exp_u64(reverse_bits(x_index, log_n) as u64);
        let old_eval = combine_initial::<F, D>(instance, |o, p| init.evals_proofs[o].0[p], challenges.fri_alpha, subgroup_x, &precomputed);
        verify_steps::<F, C, D>(x_index, subgroup_x, old_eval, |_, e, _| e, challenges, round, proof, params)?;
    }
    Ok(())
}
pub(crate) fn reduced_openings<F: RichField + Extendable<D>, const D: usize>(openings: &FriOpenings<F, D>, alpha: F::Extension) -> Vec<F::Extension> {
    openings.batches.iter().map(|b| ReducingFactor::new(alpha).reduce(b.values.iter())).collect()
}
pub(crate) fn combine_initial<F: RichField + Extendable<D>, const D: usize>(instance: &FriInstanceInfo<F, D>, get: impl Fn(usize, usize) -> F, alpha: F::Extension, subgroup_x: F, reduced_openings: &[F::Extension]) -> F::Extension {
    let subgroup_x: F::Extension = subgroup_x.into();
    let mut alpha = ReducingFactor::new(alpha);
    let mut sum = F::Extension::ZERO;
    for (FriBatchInfo { point, polynomials }, reduced) in instance.batches.iter().zip(reduced_openings) {
        let evals: Vec<F::Extension> = polynomials.iter().map(|p| get(p.oracle_index, p.polynomial_index).into()).collect();
        let reduced_evals = alpha.reduce(evals.iter());
        let numerator = reduced_evals - *reduced;
        let denominator = subgroup_x - *point;
        sum = alpha.shift(sum);
        sum += numerator / denominator;
    }
    sum
}
/// `inject(level_bits, folded_eval, (x, x_index))` lets the batch verifier add lower-degree instances.
pub(crate) fn verify_steps<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    mut x_index: usize, mut subgroup_x: F, mut old_eval: F::Extension, mut inject: impl FnMut(usize, F::Extension, (F, usize, usize)) -> F::Extension,
    challenges: &FriChallenges<F, D>, round: &crate::fri::proof::FriQueryRound<F, C::Hasher, D>, proof: &FriProof<F, C::Hasher, D>, params: &FriParams,
) -> Result<()> {
    let mut bits = params.lde_bits();
    for (i, &arity_bits) in params.reduction_arity_bits.iter().enumerate() {
        let arity = 1 << arity_bits;
        let evals = &round.steps[i].evals;
        let coset_index = x_index >> arity_bits;
        let within = x_index & (arity - 1);
        ensure!(evals[within] == old_eval, "FRI consistency check failed");
        old_eval = compute_evaluation::<F, D>(subgroup_x, within, arity_bits, evals, challenges.fri_betas[i]);
        verify_merkle_proof_to_cap::<F, C::Hasher>(flatten(evals), coset_index, &proof.commit_phase_merkle_caps[i], &round.steps[i].merkle_proof)?;
        subgroup_x = subgroup_x.exp_power_of_2(arity_bits);
        x_index = coset_index;
        bits -= arity_bits;
        old_eval = inject(bits, old_eval, (subgroup_x, x_index, i));
    }
    ensure!(proof.final_poly.eval(subgroup_x.into()) == old_eval, "Final polynomial evaluation is invalid.");
    Ok(())
}
