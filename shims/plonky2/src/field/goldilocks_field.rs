use core::fmt::{self, Debug, Display, Formatter};
use core::hash::{Hash, Hasher};
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use rand::RngCore;
use serde::{Deserialize, Serialize};

use crate::field::types::{Field, Field64, PrimeField, PrimeField64, Sample};

const P: u64 = 0xFFFF_FFFF_0000_0001;

/// Integers modulo p = 2^64 - 2^32 + 1. The stand-in keeps every element canonical.
#[derive(Copy, Clone, Serialize, Deserialize)]
#[repr(transparent)]
pub struct GoldilocksField(pub u64);

impl Default for GoldilocksField {
    fn default() -> Self { Self::ZERO }
}
impl PartialEq for GoldilocksField {
    fn eq(&self, other: &Self) -> bool { self.to_canonical_u64() == other.to_canonical_u64() }
}
impl Eq for GoldilocksField {}
impl Hash for GoldilocksField {
    fn hash<H: Hasher>(&self, state: &mut H) { state.write_u64(self.to_canonical_u64()) }
}
impl Display for GoldilocksField {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(&self.to_canonical_u64(), f) }
}
impl Debug for GoldilocksField {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Debug::fmt(&self.to_canonical_u64(), f) }
}
impl Sample for GoldilocksField {
    fn sample<R>(rng: &mut R) -> Self
    where
        R: RngCore + ?Sized, {
        loop {
            let x = rng.next_u64();
            if x < P {
                return Self(x);
            }
        }
    }
}

#[inline]
fn reduce128(x: u128) -> u64 {
    let lo = x as u64;
    let hi = (x >> 64) as u64;
    let hi_hi = hi >> 32;
    let hi_lo = hi & 0xFFFF_FFFF;
    let (mut t0, b) = lo.overflowing_sub(hi_hi);
    if b {
        t0 = t0.wrapping_sub(0xFFFF_FFFF);
    }
    let t1 = hi_lo * 0xFFFF_FFFF;
    let (mut r, c) = t0.overflowing_add(t1);
    if c {
        r = r.wrapping_add(0xFFFF_FFFF);
    }
    if r >= P {
        r -= P;
    }
    r
}

impl Field for GoldilocksField {
    const BITS: usize = 64;
    const CHARACTERISTIC_TWO_ADICITY: usize = 32;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self(14293326489335486720);
    const NEG_ONE: Self = Self(P - 1);
    const ONE: Self = Self(1);
    const POWER_OF_TWO_GENERATOR: Self = Self(7277203076849721926);
    const TWO: Self = Self(2);
    const TWO_ADICITY: usize = 32;
    const ZERO: Self = Self(0);

    fn try_inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        Some(self.exp_u64(P - 2))
    }

    fn from_noncanonical_u64(n: u64) -> Self { Self(if n >= P { n - P } else { n }) }

    fn from_noncanonical_u128(n: u128) -> Self { Self(reduce128(n)) }

    fn from_noncanonical_i64(n: i64) -> Self {
        if n < 0 {
            -Self::from_noncanonical_u64(n.unsigned_abs())
        } else {
            Self::from_noncanonical_u64(n as u64)
        }
    }

    fn from_canonical_u64(n: u64) -> Self {
        debug_assert!(n < P);
        Self::from_noncanonical_u64(n)
    }
}
impl PrimeField for GoldilocksField {}
impl Field64 for GoldilocksField {
    const ORDER: u64 = P;
}
impl PrimeField64 for GoldilocksField {
    #[inline]
    fn to_canonical_u64(&self) -> u64 { if self.0 >= P { self.0 - P } else { self.0 } }
    fn to_noncanonical_u64(&self) -> u64 { self.0 }
}
impl Neg for GoldilocksField {
    type Output = Self;
    #[inline]
    fn neg(self) -> Self { let x = self.to_canonical_u64(); Self(if x == 0 { 0 } else { P - x }) }
}
impl Add for GoldilocksField {
    type Output = Self;
    #[inline]
    fn add(self, rhs: Self) -> Self {
        let a = self.to_canonical_u64();
        let b = rhs.to_canonical_u64();
        let (s, c) = a.overflowing_add(b);
        Self(if c || s >= P { s.wrapping_sub(P) } else { s })
    }
}
impl Sub for GoldilocksField {
    type Output = Self;
    #[inline]
    fn sub(self, rhs: Self) -> Self {
        let a = self.to_canonical_u64();
        let b = rhs.to_canonical_u64();
        let (s, c) = a.overflowing_sub(b);
        Self(if c { s.wrapping_add(P) } else { s })
    }
}
impl Mul for GoldilocksField {
    type Output = Self;
    #[inline]
    fn mul(self, rhs: Self) -> Self { Self(reduce128(u128::from(self.0) * u128::from(rhs.0))) }
}
impl Div for GoldilocksField {
    type Output = Self;
    #[allow(clippy::suspicious_arithmetic_impl)]
    fn div(self, rhs: Self) -> Self { self * rhs.inverse() }
}
impl AddAssign for GoldilocksField { #[inline] fn add_assign(&mut self, r: Self) { *self = *self + r; } }
impl SubAssign for GoldilocksField { #[inline] fn sub_assign(&mut self, r: Self) { *self = *self - r; } }
impl MulAssign for GoldilocksField { #[inline] fn mul_assign(&mut self, r: Self) { *self = *self * r; } }
impl DivAssign for GoldilocksField { fn div_assign(&mut self, r: Self) { *self = *self / r; } }
impl Sum for GoldilocksField { fn sum<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self::ZERO, |a, b| a + b) } }
impl Product for GoldilocksField { fn product<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self::ONE, |a, b| a * b) } }
