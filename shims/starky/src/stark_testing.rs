use anyhow::{ensure, Result};
use plonky2::field::extension::{Extendable, FieldExtension};
use plonky2::field::polynomial::PolynomialValues;
use plonky2::field::types::{Field, Sample};
use plonky2::hash::hash_types::RichField;
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::CircuitConfig;
use plonky2::plonk::config::GenericConfig;
use plonky2::util::{log2_ceil, log2_strict};

use crate::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use crate::evaluation_frame::StarkEvaluationFrame;
use crate::stark::Stark;

const WITNESS_SIZE: usize = 1 << 5;

/// Random trace columns of degree WITNESS_SIZE give constraint evaluations of the claimed degree.
pub fn test_stark_low_degree<F: RichField + Extendable<D> + FieldExtension<1, BaseField = F>, S: Stark<F, D>, const D: usize>(stark: S) -> Result<()> {
    let rate_bits = log2_ceil(stark.constraint_degree() + 1);
    let size = WITNESS_SIZE << rate_bits;
    let lde = |v: Vec<F>, shift: F| PolynomialValues::new(v).ifft().lde(rate_bits).coset_fft(shift).values;
    let cols: Vec<Vec<F>> = (0..S::COLUMNS).map(|_| lde(F::rand_vec(WITNESS_SIZE), F::ONE)).collect();
    let unit = |i: usize| { let mut v = vec![F::ZERO; WITNESS_SIZE]; v[i] = F::ONE; v };
    let first = lde(unit(0), F::ONE);
    let last = lde(unit(WITNESS_SIZE - 1), F::ONE);
    let pis = F::rand_vec(S::PUBLIC_INPUTS);
    let alpha = F::rand();
    let last_pt = F::primitive_root_of_unity(log2_strict(WITNESS_SIZE)).inverse();
    let pts: Vec<F> = F::two_adic_subgroup(log2_strict(size));
    let step = 1 << rate_bits;
    let evals: Vec<F> = (0..size).map(|i| {
        let row = |i: usize| cols.iter().map(|c| c[i % size]).collect::<Vec<F>>();
        let vars = S::EvaluationFrame::<F, F, 1>::from_values(&row(i), &row(i + step), &pis);
        let mut c = ConstraintConsumer::<F>::new(vec![alpha], pts[i] - last_pt, first[i], last[i]);
        stark.eval_packed_generic::<F, F, 1>(&vars, &mut c);
        c.accumulators()[0]
    }).collect();
    let degree = { let c = PolynomialValues::new(evals).ifft().coeffs; c.iter().rposition(|x| x.is_nonzero()).unwrap_or(0) };
    let max = WITNESS_SIZE * stark.constraint_degree() - 1;
    ensure!(degree <= max, "Expected degree at most {WITNESS_SIZE} * {} - 1 = {max}, actual {degree}", stark.constraint_degree());
    Ok(())
}

/// The circuit version of the constraints agrees with the native one at random points.
pub fn test_stark_circuit_constraints<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, S: Stark<F, D>, const D: usize>(stark: S) -> Result<()> {
    let mut w = PartialWitness::new();
    let mut b = CircuitBuilder::<F, D>::new(CircuitConfig::standard_recursion_config());
    let rand = |n: usize| (0..n).map(|_| F::Extension::rand()).collect::<Vec<_>>();
    let (lv, nv, pis, sel) = (rand(S::COLUMNS), rand(S::COLUMNS), rand(S::PUBLIC_INPUTS), rand(3));
    let alphas = F::rand_vec(1);
    let vars = S::EvaluationFrame::<F::Extension, F::Extension, D>::from_values(&lv, &nv, &pis);
    let mut c = ConstraintConsumer::<F::Extension>::new(alphas.iter().map(|&x| F::Extension::from_basefield(x)).collect(), sel[0], sel[1], sel[2]);
    stark.eval_ext(&vars, &mut c);
    let native = c.accumulators()[0];

    let mut tgt = |b: &mut CircuitBuilder<F, D>, v: &[F::Extension]| {
        let t = b.add_virtual_extension_targets(v.len());
        for (t, v) in t.iter().zip(v) { w.set_extension_target(*t, *v); }
        t
    };
    let (lt, nt, pt, st) = (tgt(&mut b, &lv), tgt(&mut b, &nv), tgt(&mut b, &pis), tgt(&mut b, &sel));
    let nat = tgt(&mut b, &[native]);
    let at = b.add_virtual_target();
    w.set_target(at, alphas[0]);
    let vars = S::EvaluationFrameTarget::from_values(&lt, &nt, &pt);
    let mut rc = RecursiveConstraintConsumer::new(b.zero_extension(), vec![at], st[0], st[1], st[2]);
    stark.eval_ext_circuit(&mut b, &vars, &mut rc);
    let got = rc.accumulators()[0];
    b.connect_extension(got, nat[0]);
    let data = b.build::<C>();
    let proof = data.prove(w)?;
    data.verify(proof)
}
