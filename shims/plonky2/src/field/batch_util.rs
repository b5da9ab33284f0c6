use crate::field::types::Field;
pub fn batch_multiply_inplace<F: Field>(out: &mut [F], a: &[F]) { assert_eq!(out.len(), a.len()); out.iter_mut().zip(a).for_each(|(x, y)| *x *= *y); }
pub fn batch_add_inplace<F: Field>(out: &mut [F], a: &[F]) { assert_eq!(out.len(), a.len()); out.iter_mut().zip(a).for_each(|(x, y)| *x += *y); }
