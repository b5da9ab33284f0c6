use core::borrow::Borrow;
use crate::field::extension::Extendable;
use crate::field::packed::PackedField;
use crate::field::types::Field;
use crate::fri::oracle::SALT_SIZE;
use crate::hash::hash_types::RichField;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;

pub const fn salt_size(salted: bool) -> usize { if salted { SALT_SIZE } else { 0 } }

pub fn reduce_with_powers<'a, P: PackedField, T: IntoIterator<Item = &'a P>>(terms: T, alpha: P::Scalar) -> P
where
    T::IntoIter: DoubleEndedIterator, {
    let mut sum = P::ZEROS;
    for &term in terms.into_iter().rev() {
        sum = sum * alpha + term;
    }
    sum
}
pub fn reduce_with_powers_multi<'a, F: Field, I: IntoIterator<Item = F>>(terms: I, alphas: &[F]) -> Vec<F> {
    let mut c = vec![F::ZERO; alphas.len()];
    let v: Vec<F> = terms.into_iter().collect();
    for t in v.into_iter().rev() { for i in 0..alphas.len() { c[i] = c[i] * alphas[i] + t; } }
    c
}
pub fn reduce_with_powers_circuit<F: RichField + Extendable<D>, const D: usize>(builder: &mut CircuitBuilder<F, D>, terms: &[Target], alpha: Target) -> Target {
    let mut acc = builder.zero();
    for t in terms.iter().rev() {
        acc = builder.mul_add(acc, alpha, *t);
    }
    acc
}
pub fn reduce_with_powers_ext_circuit<F: RichField + Extendable<D>, const D: usize>(builder: &mut CircuitBuilder<F, D>, terms: &[ExtensionTarget<D>], alpha: Target) -> ExtensionTarget<D> {
    let alpha = builder.convert_to_ext(alpha);
    let mut acc = builder.zero_extension();
    for t in terms.iter().rev() {
        acc = builder.mul_add_extension(acc, alpha, *t);
    }
    acc
}
