use plonky2::field::extension::{Extendable, FieldExtension};
use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;
use plonky2::fri::structure::{FriBatchInfo, FriBatchInfoTarget, FriInstanceInfo, FriInstanceInfoTarget, FriOracleInfo, FriPolynomialInfo};
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::plonk::circuit_builder::CircuitBuilder;

use crate::config::StarkConfig;
use crate::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use crate::evaluation_frame::StarkEvaluationFrame;

#[derive(Clone, Copy, Debug)]
pub struct LookupConfig {
    pub degree_bits: usize,
    pub num_zs: usize,
}

const TRACE: usize = 0;
const AUX: usize = 1;
const QUOTIENT: usize = 2;

pub trait Stark<F: RichField + Extendable<D>, const D: usize>: Sync {
    const COLUMNS: usize = Self::EvaluationFrameTarget::COLUMNS;
    const PUBLIC_INPUTS: usize = Self::EvaluationFrameTarget::PUBLIC_INPUTS;

    type EvaluationFrame<FE, P, const D2: usize>: StarkEvaluationFrame<P, FE>
    where
        FE: FieldExtension<D2, BaseField = F>,
        P: PackedField<Scalar = FE>;
    type EvaluationFrameTarget: StarkEvaluationFrame<ExtensionTarget<D>, ExtensionTarget<D>>;

    fn eval_packed_generic<FE, P, const D2: usize>(&self, vars: &Self::EvaluationFrame<FE, P, D2>, yield_constr: &mut ConstraintConsumer<P>)
    where
        FE: FieldExtension<D2, BaseField = F>,
        P: PackedField<Scalar = FE>;
    fn eval_packed_base<P: PackedField<Scalar = F>>(&self, vars: &Self::EvaluationFrame<F, P, 1>, yield_constr: &mut ConstraintConsumer<P>) {
        self.eval_packed_generic(vars, yield_constr)
    }
    fn eval_ext(&self, vars: &Self::EvaluationFrame<F::Extension, F::Extension, D>, yield_constr: &mut ConstraintConsumer<F::Extension>) {
        self.eval_packed_generic(vars, yield_constr)
    }
    fn eval_ext_circuit(&self, builder: &mut CircuitBuilder<F, D>, vars: &Self::EvaluationFrameTarget, yield_constr: &mut RecursiveConstraintConsumer<F, D>);

    fn constraint_degree(&self) -> usize;
    fn quotient_degree_factor(&self) -> usize { 1.max(self.constraint_degree() - 1) }
    fn num_quotient_polys(&self, config: &StarkConfig) -> usize { self.quotient_degree_factor() * config.num_challenges }

    fn fri_instance(&self, zeta: F::Extension, g: F, num_ctl_helpers: usize, num_ctl_zs: Vec<usize>, config: &StarkConfig, lookup: Option<&LookupConfig>) -> FriInstanceInfo<F, D> {
        let trace = FriPolynomialInfo::from_range(TRACE, 0..Self::COLUMNS);
        let trace_oracle = FriOracleInfo { num_polys: Self::COLUMNS, blinding: false };
        let quotient_oracle = FriOracleInfo { num_polys: self.num_quotient_polys(config), blinding: false };
        let Some(lookup) = lookup else {
            let quotient = FriPolynomialInfo::from_range(AUX, 0..self.num_quotient_polys(config));
            return FriInstanceInfo {
                oracles: vec![trace_oracle, quotient_oracle],
                batches: vec![
                    FriBatchInfo { point: zeta, polynomials: [trace.clone(), quotient].concat() },
                    FriBatchInfo { point: zeta.scalar_mul(g), polynomials: trace },
                ],
            };
        };
        // mozak-vm passes its own cross-table columns as `num_zs`, and no helper columns.
        let total = num_ctl_helpers + num_ctl_zs.iter().sum::<usize>() + lookup.num_zs;
        let aux = FriPolynomialInfo::from_range(AUX, 0..total);
        let zs = FriPolynomialInfo::from_range(AUX, num_ctl_helpers..total);
        let quotient = FriPolynomialInfo::from_range(QUOTIENT, 0..self.num_quotient_polys(config));
        let last: F::Extension = F::primitive_root_of_unity(lookup.degree_bits).inverse().into();
        FriInstanceInfo {
            oracles: vec![trace_oracle, FriOracleInfo { num_polys: total, blinding: false }, quotient_oracle],
            batches: vec![
                FriBatchInfo { point: zeta, polynomials: [trace.clone(), aux.clone(), quotient].concat() },
                FriBatchInfo { point: zeta.scalar_mul(g), polynomials: [trace, aux].concat() },
                FriBatchInfo { point: last, polynomials: zs },
            ],
        }
    }
    fn fri_instance_target(&self, builder: &mut CircuitBuilder<F, D>, zeta: ExtensionTarget<D>, g: F, num_ctl_helpers: usize, num_ctl_zs: usize, config: &StarkConfig, lookup: Option<&LookupConfig>) -> FriInstanceInfoTarget<D> {
        let native = self.fri_instance(F::Extension::ONE, g, num_ctl_helpers, vec![num_ctl_zs], config, lookup);
        let zeta_next = builder.mul_const_extension(g, zeta);
        let batches = native.batches.into_iter().enumerate().map(|(i, b)| FriBatchInfoTarget {
            point: match i { 0 => zeta, 1 => zeta_next, _ => builder.constant_extension(b.point) },
            polynomials: b.polynomials,
        }).collect();
        FriInstanceInfoTarget { oracles: native.oracles, batches }
    }
    fn requires_ctls(&self) -> bool { false }
    fn uses_lookups(&self) -> bool { false }
}
