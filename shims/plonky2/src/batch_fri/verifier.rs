use anyhow::{ensure, Result};
use crate::field::extension::Extendable;
use crate::field::types::Field;
use crate::fri::proof::{FriChallenges, FriProof};
use crate::fri::structure::{FriInstanceInfo, FriOpenings};
use crate::fri::verifier::{combine_initial, fri_verify_proof_of_work, reduced_openings, validate_common, verify_steps};
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_proofs::verify_batch_merkle_proof_to_cap;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::GenericConfig;
use crate::util::reverse_bits;

pub fn verify_batch_fri_proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    degree_bits: &[usize], instances: &[FriInstanceInfo<F, D>], openings: &[FriOpenings<F, D>], challenges: &FriChallenges<F, D>, initial_merkle_caps: &[MerkleCap<F, C::Hasher>], proof: &FriProof<F, C::Hasher, D>, params: &FriParams,
) -> Result<()> {
    validate_common::<F, C, D>(proof, params)?;
    ensure!(degree_bits.len() == instances.len() && instances.len() == openings.len());
    ensure!(degree_bits[0] == params.degree_bits);
    let rate_bits = params.config.rate_bits;
    let cap_height = params.config.cap_height;
    for (o, ins) in openings.iter().zip(instances) {
        ensure!(o.batches.len() == ins.batches.len());
        for (x, y) in o.batches.iter().zip(&ins.batches) { ensure!(x.values.len() == y.polynomials.len()); }
    }
    fri_verify_proof_of_work(challenges.fri_pow_response, &params.config)?;
    let precomputed: Vec<_> = openings.iter().map(|o| reduced_openings(o, challenges.fri_alpha)).collect();
    for (&x_index, round) in challenges.fri_query_indices.iter().zip(&proof.query_round_proofs) {
        let init = &round.initial_trees_proof;
        ensure!(init.evals_proofs.len() == initial_merkle_caps.len());
        for (o, ((evals, mp), cap)) in init.evals_proofs.iter().zip(initial_merkle_caps).enumerate() {
            let mut rest = &evals[..];
            let mut leaves = Vec::new();
            for ins in instances {
                let k = ins.oracles[o].num_polys;
                ensure!(rest.len() >= k);
                leaves.push(rest[..k].to_vec());
                rest = &rest[k..];
            }
            ensure!(rest.is_empty());
            let heights: Vec<usize> = degree_bits.iter().map(|d| d + rate_bits - cap_height).collect();
            ensure!(mp.len() == heights[0]);
            verify_batch_merkle_proof_to_cap::<F, C::Hasher>(&leaves, &heights, x_index, cap, mp)?;
        }
        let get = |o: usize, p: usize| init.evals_proofs[o].0[p];
        let x_of = |bits: usize, idx: usize| F::MULTIPLICATIVE_GROUP_GENERATOR * F::primitive_root_of_unity(bits).exp_u64(reverse_bits(idx, bits) as u64);
        let lde = params.lde_bits();
        let x = x_of(lde, x_index);
        let old = combine_initial::<F, D>(&instances[0], get, challenges.fri_alpha, x, &precomputed[0]);
        let mut next = 1;
        verify_steps::<F, C, D>(x_index, x, old, |bits, e, (_x, idx, i)| {
            if next < instances.len() && degree_bits[next] + rate_bits == bits {
                let g = combine_initial::<F, D>(&instances[next], get, challenges.fri_alpha, x_of(bits, idx), &precomputed[next]);
                next += 1;
                e * challenges.fri_betas[i] + g
            } else { e }
        }, challenges, round, proof, params)?;
        ensure!(next == instances.len(), "reduction arities skip an instance degree");
    }
    Ok(())
}
