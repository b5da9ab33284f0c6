use core::fmt::{Debug, Display};
use core::hash::Hash;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use rand::rngs::OsRng;
use serde::de::DeserializeOwned;
use serde::Serialize;

use crate::field::extension::Frobenius;
use crate::field::ops::Square;

/// Sampling
pub trait Sample: Sized {
    fn sample<R>(rng: &mut R) -> Self
    where
        R: rand::RngCore + ?Sized;

    fn rand() -> Self { Self::sample(&mut OsRng) }
    fn rand_vec(n: usize) -> Vec<Self> { (0..n).map(|_| Self::rand()).collect() }
    fn rand_array<const N: usize>() -> [Self; N] { core::array::from_fn(|_| Self::rand()) }
}

pub trait Field:
    'static
    + Copy
    + Eq
    + Hash
    + Neg<Output = Self>
    + Add<Self, Output = Self>
    + AddAssign<Self>
    + Sum
    + Sub<Self, Output = Self>
    + SubAssign<Self>
    + Mul<Self, Output = Self>
    + MulAssign<Self>
    + Square
    + Product
    + Div<Self, Output = Self>
    + DivAssign<Self>
    + Debug
    + Default
    + Display
    + Sample
    + Send
    + Sync
    + Serialize
    + DeserializeOwned {
    const ZERO: Self;
    const ONE: Self;
    const TWO: Self;
    const NEG_ONE: Self;

    const TWO_ADICITY: usize;
    const CHARACTERISTIC_TWO_ADICITY: usize;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self;
    const POWER_OF_TWO_GENERATOR: Self;
    const BITS: usize;

    fn characteristic_u64() -> u64 { 0xFFFF_FFFF_0000_0001 }

    fn is_zero(&self) -> bool { *self == Self::ZERO }
    fn is_nonzero(&self) -> bool { *self != Self::ZERO }
    fn is_one(&self) -> bool { *self == Self::ONE }
    fn double(&self) -> Self { *self + *self }
    fn cube(&self) -> Self { self.square() * *self }
    fn triple(&self) -> Self { *self * (Self::ONE + Self::TWO) }

    fn try_inverse(&self) -> Option<Self>;
    fn inverse(&self) -> Self { self.try_inverse().expect("Tried to invert zero") }

    fn batch_multiplicative_inverse(x: &[Self]) -> Vec<Self> {
        let mut prefix = Vec::with_capacity(x.len());
        let mut acc = Self::ONE;
        for &v in x {
            prefix.push(acc);
            acc *= v;
        }
        if x.is_empty() {
            return vec![];
        }
        let mut inv = acc.inverse();
        let mut out = vec![Self::ZERO; x.len()];
        for i in (0..x.len()).rev() {
            out[i] = prefix[i] * inv;
            inv *= x[i];
        }
        out
    }

    fn inverse_2exp(exp: usize) -> Self { Self::TWO.inverse().exp_u64(exp as u64) }

    fn primitive_root_of_unity(n_log: usize) -> Self {
        assert!(n_log <= Self::TWO_ADICITY);
        let base = Self::POWER_OF_TWO_GENERATOR;
        base.exp_power_of_2(Self::TWO_ADICITY - n_log)
    }
    fn two_adic_subgroup(n_log: usize) -> Vec<Self> {
        let generator = Self::primitive_root_of_unity(n_log);
        generator.powers().take(1 << n_log).collect()
    }
    fn cyclic_subgroup_unknown_order(generator: Self) -> Vec<Self> {
        let mut subgroup = Vec::new();
        for power in generator.powers() {
            if power.is_one() && !subgroup.is_empty() {
                break;
            }
            subgroup.push(power);
        }
        subgroup
    }
    fn cyclic_subgroup_known_order(generator: Self, order: usize) -> Vec<Self> {
        generator.powers().take(order).collect()
    }
    fn cyclic_subgroup_coset_known_order(generator: Self, shift: Self, order: usize) -> Vec<Self> {
        generator.powers().take(order).map(|x| x * shift).collect()
    }

    fn from_noncanonical_u64(n: u64) -> Self;
    fn from_noncanonical_u96((n_lo, n_hi): (u64, u32)) -> Self { Self::from_noncanonical_u128(u128::from(n_hi) << 64 | u128::from(n_lo)) }
    fn from_noncanonical_u128(n: u128) -> Self;
    fn from_noncanonical_i64(n: i64) -> Self;
    fn from_canonical_u64(n: u64) -> Self;
    fn from_canonical_u32(n: u32) -> Self { Self::from_canonical_u64(u64::from(n)) }
    fn from_canonical_u16(n: u16) -> Self { Self::from_canonical_u64(u64::from(n)) }
    fn from_canonical_u8(n: u8) -> Self { Self::from_canonical_u64(u64::from(n)) }
    fn from_canonical_usize(n: usize) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_canonical_i64(n: i64) -> Self { Self::from_noncanonical_i64(n) }
    fn from_bool(b: bool) -> Self { Self::from_canonical_u64(u64::from(b)) }

    fn exp_power_of_2(&self, power_log: usize) -> Self {
        let mut res = *self;
        for _ in 0..power_log {
            res = res.square();
        }
        res
    }
    fn exp_u64(&self, mut power: u64) -> Self {
        let mut current = *self;
        let mut product = Self::ONE;
        while power > 0 {
            if power & 1 == 1 {
                product *= current;
            }
            current = current.square();
            power >>= 1;
        }
        product
    }
    fn exp_biguint_bytes_le(&self, power: &[u8]) -> Self {
        let mut r = Self::ONE;
        for b in power.iter().rev() {
            for i in (0..8).rev() {
                r = r.square();
                if b >> i & 1 == 1 {
                    r *= *self;
                }
            }
        }
        r
    }
    fn powers(&self) -> Powers<Self> { self.shifted_powers(Self::ONE) }
    fn shifted_powers(&self, start: Self) -> Powers<Self> { Powers { base: *self, current: start } }
    fn multiply_accumulate(&self, x: Self, y: Self) -> Self { *self + x * y }
    fn coset_shift() -> Self { Self::MULTIPLICATIVE_GROUP_GENERATOR }
}

pub trait PrimeField: Field {
    fn is_quadratic_residue(&self) -> bool {
        if self.is_zero() {
            return true;
        }
        self.exp_u64((Self::characteristic_u64() - 1) / 2) == Self::ONE
    }
}

pub trait Field64: Field {
    const ORDER: u64;

    fn from_noncanonical_i64_(n: i64) -> Self { Self::from_noncanonical_i64(n) }
    /// # Safety
    /// never unsafe here
    unsafe fn add_canonical_u64(&self, rhs: u64) -> Self { *self + Self::from_canonical_u64(rhs) }
    /// # Safety
    /// never unsafe here
    unsafe fn sub_canonical_u64(&self, rhs: u64) -> Self { *self - Self::from_canonical_u64(rhs) }
    fn add_one(&self) -> Self { *self + Self::ONE }
    fn sub_one(&self) -> Self { *self - Self::ONE }
}

pub trait PrimeField64: PrimeField + Field64 {
    fn to_canonical_u64(&self) -> u64;
    fn to_noncanonical_u64(&self) -> u64;
    fn to_canonical(&self) -> Self { Self::from_canonical_u64(self.to_canonical_u64()) }
    fn to_canonical_i64(&self) -> i64 {
        let x = self.to_canonical_u64();
        let neg = Self::ORDER - x;
        if x <= neg {
            x as i64
        } else {
            -(neg as i64)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Powers<F> {
    pub(crate) base: F,
    pub(crate) current: F,
}

impl<F: Copy + Mul<F, Output = F>> Iterator for Powers<F> {
    type Item = F;

    fn next(&mut self) -> Option<F> {
        let result = self.current;
        self.current = self.current * self.base;
        Some(result)
    }

    fn size_hint(&self) -> (usize, Option<usize>) { (usize::MAX, None) }
}

impl<F: Field> Powers<F> {
    pub fn repeated_frobenius<const D: usize>(self, k: usize) -> Self
    where
        F: crate::field::extension::OEF<D> + Frobenius<D>, {
        Self { base: self.base.repeated_frobenius(k), current: self.current.repeated_frobenius(k) }
    }
}
