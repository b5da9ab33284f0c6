use core::fmt::{self, Debug, Display, Formatter};
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use rand::RngCore;
use serde::{Deserialize, Serialize};

use crate::field::ops::Square;
use crate::field::types::{Field, Sample};

pub mod quadratic { pub use super::QuadraticExtension; }

pub trait OEF<const D: usize>: FieldExtension<D> {
    const W: Self::BaseField;
    const DTH_ROOT: Self::BaseField;
}

impl<F: Field> OEF<1> for F {
    const DTH_ROOT: Self::BaseField = F::ONE;
    const W: Self::BaseField = F::ONE;
}

pub trait Frobenius<const D: usize>: OEF<D> {
    fn frobenius(&self) -> Self { self.repeated_frobenius(1) }
    fn repeated_frobenius(&self, count: usize) -> Self {
        if count == 0 {
            return *self;
        } else if count >= D {
            return self.repeated_frobenius(count % D);
        }
        let arr = self.to_basefield_array();
        let mut z0 = Self::DTH_ROOT;
        for _ in 1..count {
            z0 *= Self::DTH_ROOT;
        }
        let mut res = [Self::BaseField::ZERO; D];
        for (i, z) in z0.powers().take(D).enumerate() {
            res[i] = arr[i] * z;
        }
        Self::from_basefield_array(res)
    }
}
impl<F: Field> Frobenius<1> for F {}

pub trait Extendable<const D: usize>: Field + Sized {
    type Extension: Field + OEF<D, BaseField = Self> + Frobenius<D> + From<Self>;

    const W: Self;
    const DTH_ROOT: Self;
    const EXT_MULTIPLICATIVE_GROUP_GENERATOR: [Self; D];
    const EXT_POWER_OF_TWO_GENERATOR: [Self; D];
}

impl<F: Field + FieldExtension<1, BaseField = F>> Extendable<1> for F {
    type Extension = F;

    const DTH_ROOT: Self = F::ONE;
    const EXT_MULTIPLICATIVE_GROUP_GENERATOR: [Self; 1] = [F::MULTIPLICATIVE_GROUP_GENERATOR];
    const EXT_POWER_OF_TWO_GENERATOR: [Self; 1] = [F::POWER_OF_TWO_GENERATOR];
    const W: Self = F::ONE;
}

pub trait FieldExtension<const D: usize>: Field {
    type BaseField: Field;

    fn to_basefield_array(&self) -> [Self::BaseField; D];
    fn from_basefield_array(arr: [Self::BaseField; D]) -> Self;
    fn from_basefield(x: Self::BaseField) -> Self;
    fn is_in_basefield(&self) -> bool {
        self.to_basefield_array()[1..].iter().all(|x| x.is_zero())
    }
    fn scalar_mul(&self, scalar: Self::BaseField) -> Self {
        let mut res = self.to_basefield_array();
        res.iter_mut().for_each(|x| *x *= scalar);
        Self::from_basefield_array(res)
    }
}

impl<F: Field> FieldExtension<1> for F {
    type BaseField = F;

    fn to_basefield_array(&self) -> [F; 1] { [*self] }
    fn from_basefield_array(arr: [F; 1]) -> Self { arr[0] }
    fn from_basefield(x: F) -> Self { x }
}

#[derive(Copy, Clone, Eq, PartialEq, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
#[repr(transparent)]
pub struct QuadraticExtension<F: Extendable<2>>(pub [F; 2]);

impl<F: Extendable<2>> Default for QuadraticExtension<F> {
    fn default() -> Self { Self::ZERO }
}
impl<F: Extendable<2>> OEF<2> for QuadraticExtension<F> {
    const DTH_ROOT: F = F::DTH_ROOT;
    const W: F = F::W;
}
impl<F: Extendable<2>> Frobenius<2> for QuadraticExtension<F> {}
impl<F: Extendable<2>> FieldExtension<2> for QuadraticExtension<F> {
    type BaseField = F;

    fn to_basefield_array(&self) -> [F; 2] { self.0 }
    fn from_basefield_array(arr: [F; 2]) -> Self { Self(arr) }
    fn from_basefield(x: F) -> Self { Self([x, F::ZERO]) }
}
impl<F: Extendable<2>> From<F> for QuadraticExtension<F> {
    fn from(x: F) -> Self { Self([x, F::ZERO]) }
}
impl<F: Extendable<2>> Sample for QuadraticExtension<F> {
    fn sample<R>(rng: &mut R) -> Self
    where
        R: RngCore + ?Sized, {
        Self([F::sample(rng), F::sample(rng)])
    }
}
impl<F: Extendable<2>> Field for QuadraticExtension<F> {
    const BITS: usize = F::BITS * 2;
    const CHARACTERISTIC_TWO_ADICITY: usize = F::CHARACTERISTIC_TWO_ADICITY;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self(F::EXT_MULTIPLICATIVE_GROUP_GENERATOR);
    const NEG_ONE: Self = Self([F::NEG_ONE, F::ZERO]);
    const ONE: Self = Self([F::ONE, F::ZERO]);
    const POWER_OF_TWO_GENERATOR: Self = Self(F::EXT_POWER_OF_TWO_GENERATOR);
    const TWO: Self = Self([F::TWO, F::ZERO]);
    const TWO_ADICITY: usize = F::TWO_ADICITY + 1;
    const ZERO: Self = Self([F::ZERO; 2]);

    fn try_inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let [a, b] = self.0;
        let norm = a * a - F::W * b * b;
        let i = norm.inverse();
        Some(Self([a * i, -b * i]))
    }

    fn from_noncanonical_u64(n: u64) -> Self { F::from_noncanonical_u64(n).into() }
    fn from_noncanonical_u128(n: u128) -> Self { F::from_noncanonical_u128(n).into() }
    fn from_noncanonical_i64(n: i64) -> Self { F::from_noncanonical_i64(n).into() }
    fn from_canonical_u64(n: u64) -> Self { F::from_canonical_u64(n).into() }
}
impl<F: Extendable<2>> Display for QuadraticExtension<F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{} + {}*a", self.0[0], self.0[1]) }
}
impl<F: Extendable<2>> Debug for QuadraticExtension<F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(self, f) }
}
impl<F: Extendable<2>> Neg for QuadraticExtension<F> {
    type Output = Self;
    fn neg(self) -> Self { Self([-self.0[0], -self.0[1]]) }
}
impl<F: Extendable<2>> Add for QuadraticExtension<F> {
    type Output = Self;
    fn add(self, r: Self) -> Self { Self([self.0[0] + r.0[0], self.0[1] + r.0[1]]) }
}
impl<F: Extendable<2>> Sub for QuadraticExtension<F> {
    type Output = Self;
    fn sub(self, r: Self) -> Self { Self([self.0[0] - r.0[0], self.0[1] - r.0[1]]) }
}
impl<F: Extendable<2>> Mul for QuadraticExtension<F> {
    type Output = Self;
    fn mul(self, r: Self) -> Self {
        let [a0, a1] = self.0;
        let [b0, b1] = r.0;
        Self([a0 * b0 + F::W * a1 * b1, a0 * b1 + a1 * b0])
    }
}
impl<F: Extendable<2>> Div for QuadraticExtension<F> {
    type Output = Self;
    #[allow(clippy::suspicious_arithmetic_impl)]
    fn div(self, r: Self) -> Self { self * r.inverse() }
}
impl<F: Extendable<2>> AddAssign for QuadraticExtension<F> { fn add_assign(&mut self, r: Self) { *self = *self + r; } }
impl<F: Extendable<2>> SubAssign for QuadraticExtension<F> { fn sub_assign(&mut self, r: Self) { *self = *self - r; } }
impl<F: Extendable<2>> MulAssign for QuadraticExtension<F> { fn mul_assign(&mut self, r: Self) { *self = *self * r; } }
impl<F: Extendable<2>> DivAssign for QuadraticExtension<F> { fn div_assign(&mut self, r: Self) { *self = *self / r; } }
impl<F: Extendable<2>> Sum for QuadraticExtension<F> { fn sum<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self::ZERO, |a, b| a + b) } }
impl<F: Extendable<2>> Product for QuadraticExtension<F> { fn product<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self::ONE, |a, b| a * b) } }

pub fn flatten<F: Field, const D: usize>(l: &[F::Extension]) -> Vec<F>
where
    F: Extendable<D>, {
    l.iter().flat_map(|x| x.to_basefield_array().to_vec()).collect()
}
pub fn unflatten<F: Field, const D: usize>(l: &[F]) -> Vec<F::Extension>
where
    F: Extendable<D>, {
    assert_eq!(l.len() % D, 0);
    l.chunks_exact(D).map(|c| F::Extension::from_basefield_array(c.to_vec().try_into().unwrap())).collect()
}
