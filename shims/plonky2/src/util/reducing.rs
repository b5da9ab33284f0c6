use core::borrow::Borrow;
use crate::field::extension::{Extendable, FieldExtension};
use crate::field::packed::PackedField;
use crate::field::polynomial::PolynomialCoeffs;
use crate::field::types::Field;
use crate::hash::hash_types::RichField;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;

/// When verifying the composition polynomial in FRI we have to compute sums of the form
/// `(sum_0^k a^i * x_i)/d_0 + (sum_k^r a^i * y_i)/d_1`.
#[derive(Debug, Clone)]
pub struct ReducingFactor<F: Field> {
    base: F,
    count: u64,
}
impl<F: Field> ReducingFactor<F> {
    pub const fn new(base: F) -> Self { Self { base, count: 0 } }
    fn mul(&mut self, x: F) -> F { self.count += 1; self.base * x }
    pub fn reduce(&mut self, iter: impl DoubleEndedIterator<Item = impl Borrow<F>>) -> F {
        iter.rev().fold(F::ZERO, |acc, x| self.mul(acc) + *x.borrow())
    }
    pub fn reduce_ext<FE, P, const D: usize>(&mut self, iter: impl DoubleEndedIterator<Item = impl Borrow<P>>) -> P
    where FE: FieldExtension<D, BaseField = F>, P: PackedField<Scalar = FE> {
        let b = FE::from_basefield(self.base);
        iter.rev().fold(P::ZEROS, |acc, x| { self.count += 1; acc * b + *x.borrow() })
    }
    pub fn reduce_polys(&mut self, polys: impl DoubleEndedIterator<Item = impl Borrow<PolynomialCoeffs<F>>>) -> PolynomialCoeffs<F> {
        polys.rev().fold(PolynomialCoeffs::empty(), |mut acc, x| {
            self.count += 1;
            acc *= self.base;
            acc += x.borrow();
            acc
        })
    }
    pub fn reduce_polys_base<BF: Extendable<D, Extension = F>, const D: usize>(
        &mut self, polys: impl IntoIterator<Item = impl Borrow<PolynomialCoeffs<BF>>>,
    ) -> PolynomialCoeffs<F> where F: crate::field::extension::FieldExtension<D, BaseField = BF> {
        let mut out: PolynomialCoeffs<F> = PolynomialCoeffs::empty();
        let mut pw = F::ONE;
        for p in polys {
            let p = p.borrow();
            if out.coeffs.len() < p.coeffs.len() { out.coeffs.resize(p.coeffs.len(), F::ZERO); }
            for (o, c) in out.coeffs.iter_mut().zip(&p.coeffs) { let t: F = <F as crate::field::extension::FieldExtension<D>>::from_basefield(*c); *o += t * pw; }
            pw *= self.base;
            self.count += 1;
        }
        out
    }
    pub fn shift(&mut self, x: F) -> F {
        let tmp = self.base.exp_u64(self.count) * x;
        self.count = 0;
        tmp
    }
    pub fn shift_poly(&mut self, p: &mut PolynomialCoeffs<F>) {
        *p *= self.base.exp_u64(self.count);
        self.count = 0;
    }
    pub fn reset(&mut self) { self.count = 0; }
    pub fn repeated_frobenius<const D: usize>(&self, count: usize) -> Self
    where F: crate::field::extension::OEF<D> + crate::field::extension::Frobenius<D> {
        Self { base: self.base.repeated_frobenius(count), count: self.count }
    }
}

#[derive(Debug, Clone)]
pub struct ReducingFactorTarget<const D: usize> {
    base: ExtensionTarget<D>,
    count: u64,
}
impl<const D: usize> ReducingFactorTarget<D> {
    pub const fn new(base: ExtensionTarget<D>) -> Self { Self { base, count: 0 } }
    pub fn reduce_base<F: RichField + Extendable<D>>(&mut self, terms: &[Target], builder: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> {
        let e: Vec<_> = terms.iter().map(|t| builder.convert_to_ext(*t)).collect();
        self.reduce(&e, builder)
    }
    pub fn reduce<F: RichField + Extendable<D>>(&mut self, terms: &[ExtensionTarget<D>], builder: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> {
        let mut acc = builder.zero_extension();
        for t in terms.iter().rev() {
            acc = builder.mul_add_extension(acc, self.base, *t);
            self.count += 1;
        }
        acc
    }
    pub fn shift<F: RichField + Extendable<D>>(&mut self, x: ExtensionTarget<D>, builder: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> {
        let e = builder.exp_u64_extension(self.base, self.count);
        self.count = 0;
        builder.mul_extension(e, x)
    }
    pub fn reset(&mut self) { self.count = 0; }
}
