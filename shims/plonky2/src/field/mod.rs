pub mod batch_util;
pub mod cosets;
pub mod extension;
pub mod fft;
pub mod goldilocks_extensions;
pub mod goldilocks_field;
pub mod ops;
pub mod packable;
pub mod packed;
pub mod polynomial;
pub mod types;
pub mod zero_poly_coset;
pub mod secp256k1_base { }
