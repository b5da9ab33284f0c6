use anyhow::{ensure, Result};
use plonky2::field::extension::{Extendable, FieldExtension};
use plonky2::hash::hash_types::RichField;
use plonky2::plonk::config::GenericConfig;

use crate::config::StarkConfig;
use crate::constraint_consumer::ConstraintConsumer;
use crate::evaluation_frame::StarkEvaluationFrame;
use crate::prover::StarkProofWithPublicInputs;
use crate::stark::Stark;

pub fn verify_stark_proof<F: RichField + Extendable<D> + FieldExtension<1, BaseField = F>, C: GenericConfig<D, F = F>, S: Stark<F, D>, const D: usize>(
    stark: S, proof: StarkProofWithPublicInputs<F, C, D>, _config: &StarkConfig,
) -> Result<()> {
    let n = proof.trace[0].values.len();
    let row = |i: usize| proof.trace.iter().map(|c| c.values[i]).collect::<Vec<F>>();
    for i in 0..n {
        let next = (i + 1) % n;
        let mut consumer = ConstraintConsumer::<F>::new_debug_api(i == 0, next == 0);
        let vars = S::EvaluationFrame::<F, F, 1>::from_values(&row(i), &row(next), &proof.public_inputs);
        stark.eval_packed_generic::<F, F, 1>(&vars, &mut consumer);
        ensure!(!consumer.debug_api_has_constraint_failed(), "constraints {:?} violated at row {i}", consumer.debug_api_failures());
    }
    Ok(())
}
