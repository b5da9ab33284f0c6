//! The part of `enumflags2` that the recursive circuits use.
use core::ops::*;

pub use enumflags2_derive::bitflags;

pub trait Num: Copy + Eq + core::fmt::Debug + core::hash::Hash + BitOr<Output = Self> + BitAnd<Output = Self> + BitXor<Output = Self> + Not<Output = Self> { const ZERO: Self; fn ones(self) -> usize; }
macro_rules! num { ($($t:ty)*) => { $(impl Num for $t { const ZERO: Self = 0; fn ones(self) -> usize { self.count_ones() as usize } })* } }
num!(u8 u16 u32 u64);

pub trait BitFlag: Copy + Eq + 'static {
    type Numeric: Num;
    const ALL_BITS: Self::Numeric;
    const VARIANTS: &'static [Self];
    fn bit(self) -> Self::Numeric;
    fn empty() -> BitFlags<Self> { BitFlags::EMPTY }
    fn all() -> BitFlags<Self> { BitFlags::ALL }
}

pub struct BitFlags<T: BitFlag> { val: T::Numeric }
impl<T: BitFlag> Clone for BitFlags<T> { fn clone(&self) -> Self { *self } }
impl<T: BitFlag> Copy for BitFlags<T> {}
impl<T: BitFlag> PartialEq for BitFlags<T> { fn eq(&self, o: &Self) -> bool { self.val == o.val } }
impl<T: BitFlag> Eq for BitFlags<T> {}
impl<T: BitFlag> Default for BitFlags<T> { fn default() -> Self { Self::EMPTY } }
impl<T: BitFlag> core::fmt::Debug for BitFlags<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "BitFlags({:?})", self.val) } }
#[derive(Debug)]
pub struct FromBitsError;
impl<T: BitFlag> BitFlags<T> {
    pub const EMPTY: Self = Self { val: <T::Numeric as Num>::ZERO };
    pub const ALL: Self = Self { val: T::ALL_BITS };
    pub fn empty() -> Self { Self::EMPTY }
    pub fn all() -> Self { Self::ALL }
    pub fn bits(self) -> T::Numeric { self.val }
    pub fn from_bits(val: T::Numeric) -> Result<Self, FromBitsError> { if val & !T::ALL_BITS == T::Numeric::ZERO { Ok(Self { val }) } else { Err(FromBitsError) } }
    pub fn from_bits_truncate(val: T::Numeric) -> Self { Self { val: val & T::ALL_BITS } }
    pub fn from_flag(t: T) -> Self { Self { val: t.bit() } }
    pub fn len(self) -> usize { self.val.ones() }
    pub fn is_empty(self) -> bool { self.val == T::Numeric::ZERO }
    pub fn contains(self, o: impl Into<Self>) -> bool { let o = o.into(); self.val & o.val == o.val }
    pub fn intersects(self, o: impl Into<Self>) -> bool { self.val & o.into().val != T::Numeric::ZERO }
    pub fn insert(&mut self, o: impl Into<Self>) { self.val = self.val | o.into().val; }
    pub fn remove(&mut self, o: impl Into<Self>) { self.val = self.val & !o.into().val; }
    pub fn iter(self) -> impl Iterator<Item = T> { T::VARIANTS.iter().copied().filter(move |v| self.contains(*v)) }
}
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(t: T) -> Self { Self { val: t.bit() } } }
impl<T: BitFlag, B: Into<Self>> BitOr<B> for BitFlags<T> { type Output = Self; fn bitor(self, o: B) -> Self { Self { val: self.val | o.into().val } } }
impl<T: BitFlag, B: Into<Self>> BitAnd<B> for BitFlags<T> { type Output = Self; fn bitand(self, o: B) -> Self { Self { val: self.val & o.into().val } } }
impl<T: BitFlag, B: Into<Self>> BitXor<B> for BitFlags<T> { type Output = Self; fn bitxor(self, o: B) -> Self { Self { val: self.val ^ o.into().val } } }
impl<T: BitFlag, B: Into<Self>> BitOrAssign<B> for BitFlags<T> { fn bitor_assign(&mut self, o: B) { *self = *self | o; } }
impl<T: BitFlag, B: Into<Self>> BitAndAssign<B> for BitFlags<T> { fn bitand_assign(&mut self, o: B) { *self = *self & o; } }
impl<T: BitFlag> Not for BitFlags<T> { type Output = Self; fn not(self) -> Self { Self { val: !self.val & T::ALL_BITS } } }
