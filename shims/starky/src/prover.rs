use anyhow::{ensure, Result};
use plonky2::field::extension::Extendable;
use plonky2::field::polynomial::PolynomialValues;
use plonky2::hash::hash_types::RichField;
use plonky2::plonk::config::GenericConfig;
use plonky2::util::timing::TimingTree;

use crate::config::StarkConfig;
use crate::stark::Stark;

/// A single-table "proof" in this stand-in is the trace itself; verifying it checks every
/// constraint on every row. (mozak-vm has its own provers and verifiers; those run for real.)
#[derive(Clone, Debug)]
pub struct StarkProofWithPublicInputs<F: plonky2::field::types::Field, C, const D: usize> {
    pub trace: Vec<PolynomialValues<F>>,
    pub public_inputs: Vec<F>,
    pub _c: core::marker::PhantomData<fn() -> C>,
}
pub fn prove<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, S: Stark<F, D>, const D: usize>(
    _stark: S, _config: &StarkConfig, trace: Vec<PolynomialValues<F>>, public_inputs: &[F], _timing: &mut TimingTree,
) -> Result<StarkProofWithPublicInputs<F, C, D>> {
    ensure!(trace.len() == S::COLUMNS, "wrong number of columns");
    ensure!(trace.iter().all(|c| c.values.len() == trace[0].values.len() && c.values.len().is_power_of_two()));
    Ok(StarkProofWithPublicInputs { trace, public_inputs: public_inputs.to_vec(), _c: core::marker::PhantomData })
}
