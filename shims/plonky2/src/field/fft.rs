use crate::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use crate::field::types::Field;
use crate::util::{log2_strict, reverse_index_bits_in_place};

pub type FftRootTable<F> = Vec<Vec<F>>;

pub fn fft_root_table<F: Field>(n: usize) -> FftRootTable<F> {
    let lg_n = log2_strict(n);
    (1..=lg_n).map(|i| F::primitive_root_of_unity(i).powers().take(1 << (i - 1)).collect()).collect()
}

fn fft_in_place<F: Field>(a: &mut Vec<F>) {
    let n = a.len();
    let lg = log2_strict(n);
    reverse_index_bits_in_place(a);
    for s in 1..=lg {
        let m = 1 << s;
        let half = m / 2;
        let roots: Vec<F> = F::primitive_root_of_unity(s).powers().take(half).collect();
        for k in (0..n).step_by(m) {
            for j in 0..half {
                let t = roots[j] * a[k + j + half];
                let u = a[k + j];
                a[k + j] = u + t;
                a[k + j + half] = u - t;
            }
        }
    }
}

pub fn fft<F: Field>(poly: PolynomialCoeffs<F>) -> PolynomialValues<F> { fft_with_options(poly, None, None) }
pub fn fft_with_options<F: Field>(poly: PolynomialCoeffs<F>, _zero_factor: Option<usize>, _root_table: Option<&FftRootTable<F>>) -> PolynomialValues<F> {
    let mut v = poly.coeffs;
    fft_in_place(&mut v);
    PolynomialValues { values: v }
}
pub fn ifft<F: Field>(poly: PolynomialValues<F>) -> PolynomialCoeffs<F> { ifft_with_options(poly, None, None) }
pub fn ifft_with_options<F: Field>(poly: PolynomialValues<F>, _zero_factor: Option<usize>, _root_table: Option<&FftRootTable<F>>) -> PolynomialCoeffs<F> {
    let n = poly.len();
    let lg_n = log2_strict(n);
    let n_inv = F::inverse_2exp(lg_n);
    let mut v = poly.values;
    fft_in_place(&mut v);
    v[0] *= n_inv;
    if n > 1 {
        v[n / 2] *= n_inv;
    }
    for i in 1..n / 2 {
        let j = n - i;
        let a = v[j] * n_inv;
        let b = v[i] * n_inv;
        v[i] = a;
        v[j] = b;
    }
    PolynomialCoeffs { coeffs: v }
}
