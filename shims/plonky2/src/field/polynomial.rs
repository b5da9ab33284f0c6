use core::ops::{Add, AddAssign, Mul, MulAssign, Sub, SubAssign};

use anyhow::{ensure, Result};
use serde::{Deserialize, Serialize};

use crate::field::extension::{Extendable, FieldExtension};
use crate::field::fft::{fft, fft_with_options, ifft, FftRootTable};
use crate::field::types::Field;
use crate::util::log2_strict;

#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct PolynomialValues<F: Field> {
    pub values: Vec<F>,
}

impl<F: Field> PolynomialValues<F> {
    pub fn new(values: Vec<F>) -> Self {
        debug_assert!(log2_strict(values.len()) <= F::TWO_ADICITY);
        PolynomialValues { values }
    }
    pub fn constant(value: F, len: usize) -> Self { Self::new(vec![value; len]) }
    pub fn zero(len: usize) -> Self { Self::constant(F::ZERO, len) }
    pub fn is_zero(&self) -> bool { self.values.iter().all(|x| x.is_zero()) }
    pub fn selector(len: usize, index: usize) -> Self {
        let mut result = Self::zero(len);
        result.values[index] = F::ONE;
        result
    }
    pub fn len(&self) -> usize { self.values.len() }
    pub fn is_empty(&self) -> bool { self.values.is_empty() }
    pub fn ifft(self) -> PolynomialCoeffs<F> { ifft(self) }
    pub fn coset_ifft(self, shift: F) -> PolynomialCoeffs<F> {
        let mut shifted_coeffs = self.ifft();
        shifted_coeffs.coeffs.iter_mut().zip(shift.inverse().powers()).for_each(|(c, r)| *c *= r);
        shifted_coeffs
    }
    pub fn lde_multiple(polys: Vec<Self>, rate_bits: usize) -> Vec<Self> { polys.into_iter().map(|p| p.lde(rate_bits)).collect() }
    pub fn lde(self, rate_bits: usize) -> Self {
        let coeffs = ifft(self).lde(rate_bits);
        fft_with_options(coeffs, Some(rate_bits), None)
    }
    pub fn lde_onto_coset(self, rate_bits: usize) -> Self {
        let coeffs = ifft(self).lde(rate_bits);
        coeffs.coset_fft_with_options(F::coset_shift(), Some(rate_bits), None)
    }
    pub fn degree(&self) -> usize { self.degree_plus_one().checked_sub(1).expect("deg(0) is undefined") }
    pub fn degree_plus_one(&self) -> usize { self.clone().ifft().degree_plus_one() }
    pub fn add_assign_scaled(&mut self, rhs: &Self, s: F) { self.values.iter_mut().zip(&rhs.values).for_each(|(a, b)| *a += *b * s); }
}
impl<F: Field> From<Vec<F>> for PolynomialValues<F> {
    fn from(values: Vec<F>) -> Self { Self::new(values) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct PolynomialCoeffs<F: Field> {
    pub coeffs: Vec<F>,
}

impl<F: Field> PolynomialCoeffs<F> {
    pub fn new(coeffs: Vec<F>) -> Self { PolynomialCoeffs { coeffs } }
    pub fn empty() -> Self { Self::new(Vec::new()) }
    pub fn zero(len: usize) -> Self { Self::new(vec![F::ZERO; len]) }
    pub fn is_zero(&self) -> bool { self.coeffs.iter().all(|x| x.is_zero()) }
    pub fn len(&self) -> usize { self.coeffs.len() }
    pub fn is_empty(&self) -> bool { self.coeffs.is_empty() }
    pub fn log_len(&self) -> usize { log2_strict(self.len()) }
    pub fn chunks(&self, chunk_size: usize) -> Vec<Self> {
        self.coeffs.chunks(chunk_size).map(|chunk| PolynomialCoeffs::new(chunk.to_vec())).collect()
    }
    pub fn eval(&self, x: F) -> F { self.coeffs.iter().rev().fold(F::ZERO, |acc, &c| acc * x + c) }
    pub fn eval_base<const D: usize>(&self, x: F::BaseField) -> F
    where
        F: FieldExtension<D>, {
        self.coeffs.iter().rev().fold(F::ZERO, |acc, &c| acc.scalar_mul(x) + c)
    }
    pub fn lde_multiple(polys: Vec<&Self>, rate_bits: usize) -> Vec<Self> { polys.into_iter().map(|p| p.lde(rate_bits)).collect() }
    pub fn lde(&self, rate_bits: usize) -> Self { self.padded(self.len() << rate_bits) }
    pub fn pad(&mut self, new_len: usize) -> Result<()> {
        ensure!(new_len >= self.len(), "Trying to pad a polynomial of length {} to a length of {}.", self.len(), new_len);
        self.coeffs.resize(new_len, F::ZERO);
        Ok(())
    }
    pub fn padded(&self, new_len: usize) -> Self {
        let mut poly = self.clone();
        poly.pad(new_len).unwrap();
        poly
    }
    pub fn trim(&mut self) { self.coeffs.truncate(self.degree_plus_one()); }
    pub fn trim_to_len(&mut self, len: usize) -> Result<()> {
        ensure!(self.len() >= len);
        ensure!(self.coeffs[len..].iter().all(F::is_zero));
        self.coeffs.truncate(len);
        Ok(())
    }
    pub fn trimmed(&self) -> Self {
        let mut p = self.clone();
        p.trim();
        p
    }
    pub fn degree_plus_one(&self) -> usize {
        (0usize..self.len()).rev().find(|&i| self.coeffs[i].is_nonzero()).map_or(0, |i| i + 1)
    }
    pub fn lead(&self) -> F { self.coeffs.iter().rev().find(|x| x.is_nonzero()).copied().unwrap_or(F::ZERO) }
    pub fn fft(self) -> PolynomialValues<F> { fft(self) }
    pub fn fft_with_options(self, zero_factor: Option<usize>, root_table: Option<&FftRootTable<F>>) -> PolynomialValues<F> { fft_with_options(self, zero_factor, root_table) }
    pub fn coset_fft(&self, shift: F) -> PolynomialValues<F> { self.coset_fft_with_options(shift, None, None) }
    pub fn coset_fft_with_options(&self, shift: F, zero_factor: Option<usize>, root_table: Option<&FftRootTable<F>>) -> PolynomialValues<F> {
        let modified: Self = Self::new(shift.powers().zip(&self.coeffs).map(|(r, &c)| r * c).collect());
        modified.fft_with_options(zero_factor, root_table)
    }
    pub fn to_extension<const D: usize>(&self) -> PolynomialCoeffs<F::Extension>
    where
        F: Extendable<D>, {
        PolynomialCoeffs::new(self.coeffs.iter().map(|&c| c.into()).collect())
    }
    pub fn mul_extension<const D: usize>(&self, rhs: F::Extension) -> PolynomialCoeffs<F::Extension>
    where
        F: Extendable<D>, {
        PolynomialCoeffs::new(self.coeffs.iter().map(|&c| rhs.scalar_mul(c)).collect())
    }
    /// Quotient of the division by X - z (remainder dropped).
    pub fn divide_by_linear(&self, z: F) -> PolynomialCoeffs<F> {
        let mut bs = self
            .coeffs
            .iter()
            .rev()
            .scan(F::ZERO, |acc, &c| {
                *acc = *acc * z + c;
                Some(*acc)
            })
            .collect::<Vec<_>>();
        bs.pop();
        bs.reverse();
        Self { coeffs: bs }
    }
}
impl<F: Field> PartialEq for PolynomialCoeffs<F> {
    fn eq(&self, other: &Self) -> bool {
        let max_terms = self.coeffs.len().max(other.coeffs.len());
        (0..max_terms).all(|i| self.coeffs.get(i).unwrap_or(&F::ZERO) == other.coeffs.get(i).unwrap_or(&F::ZERO))
    }
}
impl<F: Field> Eq for PolynomialCoeffs<F> {}
impl<F: Field> From<Vec<F>> for PolynomialCoeffs<F> {
    fn from(coeffs: Vec<F>) -> Self { Self::new(coeffs) }
}
impl<F: Field> Add for &PolynomialCoeffs<F> {
    type Output = PolynomialCoeffs<F>;
    fn add(self, rhs: Self) -> Self::Output {
        let len = core::cmp::max(self.len(), rhs.len());
        let mut a = self.padded(len);
        a.coeffs.iter_mut().zip(&rhs.coeffs).for_each(|(x, y)| *x += *y);
        a
    }
}
impl<F: Field> Sub for &PolynomialCoeffs<F> {
    type Output = PolynomialCoeffs<F>;
    fn sub(self, rhs: Self) -> Self::Output {
        let len = core::cmp::max(self.len(), rhs.len());
        let mut a = self.padded(len);
        a.coeffs.iter_mut().zip(&rhs.coeffs).for_each(|(x, y)| *x -= *y);
        a
    }
}
impl<F: Field> AddAssign for PolynomialCoeffs<F> {
    fn add_assign(&mut self, rhs: Self) { *self = &*self + &rhs; }
}
impl<F: Field> AddAssign<&Self> for PolynomialCoeffs<F> {
    fn add_assign(&mut self, rhs: &Self) { *self = &*self + rhs; }
}
impl<F: Field> SubAssign for PolynomialCoeffs<F> {
    fn sub_assign(&mut self, rhs: Self) { *self = &*self - &rhs; }
}
impl<F: Field> MulAssign<F> for PolynomialCoeffs<F> {
    fn mul_assign(&mut self, rhs: F) { self.coeffs.iter_mut().for_each(|x| *x *= rhs); }
}
impl<F: Field> Mul<F> for &PolynomialCoeffs<F> {
    type Output = PolynomialCoeffs<F>;
    fn mul(self, rhs: F) -> Self::Output { PolynomialCoeffs::new(self.coeffs.iter().map(|&x| rhs * x).collect()) }
}
