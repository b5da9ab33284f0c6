use core::fmt::Debug;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};
use core::slice;

use crate::field::ops::Square;
use crate::field::types::Field;

/// # Safety
/// `Self` must have the layout of `[Self::Scalar; Self::WIDTH]`.
pub unsafe trait PackedField:
    'static
    + Add<Self, Output = Self>
    + Add<Self::Scalar, Output = Self>
    + AddAssign<Self>
    + AddAssign<Self::Scalar>
    + Copy
    + Debug
    + Default
    + From<Self::Scalar>
    + Mul<Self, Output = Self>
    + Mul<Self::Scalar, Output = Self>
    + MulAssign<Self>
    + MulAssign<Self::Scalar>
    + Square
    + Neg<Output = Self>
    + Product
    + Send
    + Sub<Self, Output = Self>
    + Sub<Self::Scalar, Output = Self>
    + SubAssign<Self>
    + SubAssign<Self::Scalar>
    + Sum
    + Sync
where
    Self::Scalar: Add<Self, Output = Self>,
    Self::Scalar: Mul<Self, Output = Self>,
    Self::Scalar: Sub<Self, Output = Self>, {
    type Scalar: Field;

    const WIDTH: usize;
    const ZEROS: Self;
    const ONES: Self;

    fn from_slice(slice: &[Self::Scalar]) -> &Self;
    fn from_slice_mut(slice: &mut [Self::Scalar]) -> &mut Self;
    fn as_slice(&self) -> &[Self::Scalar];
    fn as_slice_mut(&mut self) -> &mut [Self::Scalar];

    fn interleave(&self, other: Self, block_len: usize) -> (Self, Self);

    fn powers(&self) -> crate::field::types::Powers<Self> { crate::field::types::Powers { base: *self, current: Self::ONES } }
    fn doubles(&self) -> Self { *self + *self }

    fn pack_slice(buf: &[Self::Scalar]) -> &[Self] {
        assert!(buf.len() % Self::WIDTH == 0);
        let p = buf.as_ptr().cast::<Self>();
        unsafe { slice::from_raw_parts(p, buf.len() / Self::WIDTH) }
    }
    fn pack_slice_mut(buf: &mut [Self::Scalar]) -> &mut [Self] {
        assert!(buf.len() % Self::WIDTH == 0);
        let p = buf.as_mut_ptr().cast::<Self>();
        unsafe { slice::from_raw_parts_mut(p, buf.len() / Self::WIDTH) }
    }
}

unsafe impl<F: Field> PackedField for F {
    type Scalar = Self;

    const ONES: Self = F::ONE;
    const WIDTH: usize = 1;
    const ZEROS: Self = F::ZERO;

    fn from_slice(slice: &[Self::Scalar]) -> &Self { &slice[0] }
    fn from_slice_mut(slice: &mut [Self::Scalar]) -> &mut Self { &mut slice[0] }
    fn as_slice(&self) -> &[Self::Scalar] { slice::from_ref(self) }
    fn as_slice_mut(&mut self) -> &mut [Self::Scalar] { slice::from_mut(self) }

    fn interleave(&self, other: Self, block_len: usize) -> (Self, Self) {
        match block_len {
            1 => (*self, other),
            _ => panic!("unsupported block length"),
        }
    }
}
