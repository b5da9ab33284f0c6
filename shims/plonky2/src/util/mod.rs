pub mod reducing;
pub mod serialization;
pub mod strided_view { }
pub mod timing;

use crate::field::types::Field;

pub fn bits_u64(n: u64) -> usize { (64 - n.leading_zeros()) as usize }
pub fn log2_ceil(n: usize) -> usize { (usize::BITS - n.saturating_sub(1).leading_zeros()) as usize }
pub fn log2_strict(n: usize) -> usize {
    let res = n.trailing_zeros();
    assert!(n.wrapping_shr(res) == 1, "Not a power of two: {n}");
    res as usize
}
pub fn ceil_div_usize(a: usize, b: usize) -> usize { (a + b - 1) / b }
pub fn transpose<T: Clone>(matrix: &[Vec<T>]) -> Vec<Vec<T>> {
    let len = matrix[0].len();
    (0..len).map(|i| matrix.iter().map(|row| row[i].clone()).collect()).collect()
}
pub fn reverse_bits(n: usize, num_bits: usize) -> usize {
    n.reverse_bits().overflowing_shr(usize::BITS - num_bits as u32).0
}
pub fn reverse_index_bits_in_place<T>(arr: &mut [T]) {
    let n = arr.len();
    let lg = log2_strict(n);
    if lg == 0 { return; }
    for i in 0..n {
        let j = reverse_bits(i, lg);
        if i < j { arr.swap(i, j); }
    }
}
pub fn reverse_index_bits<T: Copy>(arr: &[T]) -> Vec<T> {
    let n = arr.len();
    let lg = log2_strict(n);
    if lg == 0 { return arr.to_vec(); }
    (0..n).map(|i| arr[reverse_bits(i, lg)]).collect()
}
