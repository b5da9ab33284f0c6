//! The part of `iter_fixed` that the recursive circuits use: iterators of known length.
pub struct IteratorFixed<I, const N: usize>(I);

pub trait IntoIteratorFixed<const N: usize> {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::IntoIter, N>;
}
impl<T, const N: usize> IntoIteratorFixed<N> for [T; N] {
    type Item = T;
    type IntoIter = core::array::IntoIter<T, N>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::IntoIter, N> { IteratorFixed(self.into_iter()) }
}
impl<I: Iterator, const N: usize> IntoIteratorFixed<N> for IteratorFixed<I, N> {
    type Item = I::Item;
    type IntoIter = I;
    fn into_iter_fixed(self) -> Self { self }
}
pub trait FromIteratorFixed<T, const N: usize> { fn from_iter_fixed<I: Iterator<Item = T>>(i: IteratorFixed<I, N>) -> Self; }
impl<T, const N: usize> FromIteratorFixed<T, N> for [T; N] {
    fn from_iter_fixed<I: Iterator<Item = T>>(mut i: IteratorFixed<I, N>) -> Self { core::array::from_fn(|_| i.0.next().unwrap()) }
}
impl<I: Iterator, const N: usize> IteratorFixed<I, N> {
    pub fn map<U, G: FnMut(I::Item) -> U>(self, g: G) -> IteratorFixed<core::iter::Map<I, G>, N> { IteratorFixed(self.0.map(g)) }
    pub fn zip<O: IntoIteratorFixed<N>>(self, o: O) -> IteratorFixed<core::iter::Zip<I, O::IntoIter>, N> { IteratorFixed(self.0.zip(o.into_iter_fixed().0)) }
    pub fn enumerate(self) -> IteratorFixed<core::iter::Enumerate<I>, N> { IteratorFixed(self.0.enumerate()) }
    pub fn collect<U: FromIteratorFixed<I::Item, N>>(self) -> U { U::from_iter_fixed(self) }
}
impl<I: Iterator, const N: usize> IntoIterator for IteratorFixed<I, N> {
    type Item = I::Item;
    type IntoIter = I;
    fn into_iter(self) -> I { self.0 }
}
