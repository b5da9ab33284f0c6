
use core::fmt::Debug;
use serde::{Deserialize, Serialize};

use crate::field::extension::Extendable;
use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::{Field, PrimeField64};
use crate::hash::hash_types::{HashOut, RichField};
use crate::hash::hashing::{compress, hash_n_to_hash_no_pad, PlonkyPermutation};
use crate::iop::target::{BoolTarget, Target};
use crate::plonk::circuit_builder::{CircuitBuilder, PermKind};
use crate::plonk::config::{AlgebraicHasher, Hasher};

pub const SPONGE_RATE: usize = 8;
pub const SPONGE_CAPACITY: usize = 4;
pub const WIDTH: usize = SPONGE_RATE + SPONGE_CAPACITY;
pub const ROUND_F_BEGIN: usize = 4;
pub const ROUND_F_END: usize = 2 * ROUND_F_BEGIN;
pub const ROUND_P: usize = 22;
pub const ROUNDS: usize = ROUND_F_END + ROUND_P;
pub const DEGREE: u64 = 7;

pub trait Poseidon2: PrimeField64 {
    const MAT_DIAG12_M_1: [u64; 12];
    const RC12: [u64; 12 * ROUND_F_END];
    const RC12_MID: [u64; ROUND_P];

    fn matmul_m4(input: &mut [Self; WIDTH]) {
        for i in 0..WIDTH / 4 {
            let s = &mut input[4 * i..4 * i + 4];
            let [x0, x1, x2, x3] = [s[0], s[1], s[2], s[3]];
            // Rows of the matrix M4 = circ-like [[5,7,1,3],[4,6,1,1],[1,3,5,7],[1,1,4,6]].
            let k = |n: u64| Self::from_canonical_u64(n);
            s[0] = k(5) * x0 + k(7) * x1 + x2 + k(3) * x3;
            s[1] = k(4) * x0 + k(6) * x1 + x2 + x3;
            s[2] = x0 + k(3) * x1 + k(5) * x2 + k(7) * x3;
            s[3] = x0 + x1 + k(4) * x2 + k(6) * x3;
        }
    }
    fn matmul_external(input: &mut [Self; WIDTH]) {
        Self::matmul_m4(input);
        let mut stored = [Self::ZERO; 4];
        for l in 0..4 {
            for j in 0..WIDTH / 4 {
                stored[l] += input[4 * j + l];
            }
        }
        for i in 0..WIDTH {
            input[i] += stored[i % 4];
        }
    }
    fn matmul_internal(input: &mut [Self; WIDTH], mat_internal_diag_m_1: &[u64; WIDTH]) {
        let sum: Self = input.iter().copied().sum();
        for i in 0..WIDTH {
            input[i] = input[i] * (Self::from_canonical_u64(mat_internal_diag_m_1[i]) - Self::ONE) + sum;
        }
    }
    fn constant_layer(state: &mut [Self; WIDTH], round_ctr: usize) {
        for i in 0..WIDTH {
            state[i] += Self::from_canonical_u64(Self::RC12[round_ctr + i]);
        }
    }
    fn sbox_monomial(x: Self) -> Self {
        let x2 = x.square();
        let x4 = x2.square();
        x4 * x2 * x
    }
    fn sbox_layer(state: &mut [Self; WIDTH]) { for x in state.iter_mut() { *x = Self::sbox_monomial(*x); } }
    fn poseidon2(input: [Self; WIDTH]) -> [Self; WIDTH] {
        let mut s = input;
        Self::matmul_external(&mut s);
        for r in 0..ROUND_F_BEGIN {
            Self::constant_layer(&mut s, r);
            Self::sbox_layer(&mut s);
            Self::matmul_external(&mut s);
        }
        for r in 0..ROUND_P {
            s[0] += Self::from_canonical_u64(Self::RC12_MID[r]);
            s[0] = Self::sbox_monomial(s[0]);
            Self::matmul_internal(&mut s, &Self::MAT_DIAG12_M_1);
        }
        for r in ROUND_F_BEGIN..ROUND_F_END {
            Self::constant_layer(&mut s, r);
            Self::sbox_layer(&mut s);
            Self::matmul_external(&mut s);
        }
        s
    }
}

impl Poseidon2 for GoldilocksField {
    const MAT_DIAG12_M_1: [u64; 12] = [0x527176b4befd0f29, 0x3e04e9e0cb1c1463, 0xfb57aeef344e7987, 0xa5264e1be7735520, 0x69c3c181ae98a3a7, 0x54ecc6eaa15cbedd, 0x3cdf716162c92b65, 0x6dac35136b77f88a, 0xd26c942413879de5, 0x2c5515a9ec857cb7, 0x79258bdb0be61819, 0x5eb24b58f75f9783];
    const RC12: [u64; 96] = [0x159bade36e92cf2c, 0x03e44e5354191a84, 0x6e49b9417fd1e6a7, 0x33970912c6674136, 0xc255dc6b3551db9c, 0xc6c3a574bfa92a5c, 0x0ec4830a953eb40c, 0x35bba9b13495b12f, 0x5a25b8ca663fcea8, 0x755f128442f7d8bf, 0x36fd596b54de1ddd, 0x6a2db27365f0752e, 0x363d20dc8a4b764b, 0x184ed9236cc88753, 0x80b212f32030957a, 0x190a28527df2aaea, 0x3a72c4344f4de730, 0x8ee499d07732df1c, 0xb44497b3b35ea7b6, 0x0634fe0ab64b5f93, 0x2e87f49c943251cf, 0x29e83c351837690a, 0xbada3d73d2f710bc, 0xd09759ed795fd0cd, 0x5c30409188b6037c, 0x8f04c4ea478fd9ef, 0x954199ec36c3b646, 0x123a3f01e50c78e2, 0x711405e21f88bca8, 0xc5fef7a059941f4c, 0x90876f6d8b930f1e, 0x9444fe664bd66910, 0x807b87faa90a29ba, 0x25af4fc52dfa11ae, 0x1d438d67c611d125, 0xedcb644779000d66, 0xb57d36373df3df22, 0x8d26bed9b7f01125, 0x124b508852a4195e, 0x0a66c8a613e0b749, 0xf93cb7a31a99ad24, 0x34fd5b7df3b98d56, 0x291e5bc41930917a, 0xe27951c558c08a50, 0xc0f16228ac42ea29, 0x804092c06e3f58ea, 0x05e6238602f1ad3e, 0xeb281038e249e445, 0x3e5ef22fc5d05d3c, 0xba4bf3f276b416cc, 0x2f4174662405cd0b, 0x56f19e83e8135548, 0x79772009429954b5, 0x34617dfa6b9582a9, 0xb855d1a3159c5eb8, 0x0c1547c160eeaca6, 0x578860f3f069ffd6, 0xe621cf404fa25fef, 0xd7ce3675e4651bf2, 0x12a4b3e5e625bd6f, 0xe06b5d7e9ec86150, 0xc6e8331ef0293fd8, 0x9a776117c60e5aa6, 0xabec3e8ee0443299, 0xd128a85fbe015660, 0xf1b7780669b8daad, 0xaed15730a1dd4fb1, 0x59f6140c8def0a99, 0xee94260cabb4a1fa, 0x9b4a4787e5658d58, 0x4a3b5c1f4453cefc, 0x26d8db71c51c2fbb, 0x53fe356ec8eb0d52, 0x89353f0a4a6b1ea8, 0xe55c91a59821cad4, 0x9b77313fcc7810b7, 0x6ea986dedc95cb08, 0x95a4ae6db47bc250, 0x05f6369063cd2b3a, 0xf9da13293d38c014, 0xa05059a9e589cd05, 0xb073759ec62ef555, 0x35fd745f1d462072, 0x4a1f74bf9b4ab373, 0xdc1becfda7cf6bf4, 0x3ec805777f07d183, 0xcd89e9a685114c7e, 0x64309e63101eeff9, 0x751e019f1bc938c1, 0x1b3fd8c9ed6b4bee, 0x6f72c3fb0fffa57f, 0x096cfc5d4a0ca7d6, 0xe21164271f11a74c, 0x3e307308ca115b87, 0xb2c09a9781a49486, 0xa661c355b152c001];
    const RC12_MID: [u64; ROUND_P] = [0x8951d86b1b92077e, 0xbc9f1126859f4064, 0x2c3e3fd38fe2da52, 0x36b836d7dcf0d2d2, 0x48e734a850acf01d, 0x453a25a8e5ef3f64, 0x19f5b2db73f6f564, 0x42b4847f67b5954f, 0x74b330a80361d7bc, 0x0759e87bcb1066ed, 0xd60dba9d4713fd1b, 0x493a8103a185068f, 0x4377a1023f4ac68b, 0x13b9b2ff3e05c6f2, 0x55e32f7dd9c1245c, 0x00ac7380895937ac, 0xf1a3aa8dfa0752b1, 0x963a2e0f96584bb6, 0x5543b26db577b965, 0xdb39605bfea2fc20, 0x48b15061f794aee2, 0x20ca6a261e3a7356];
}

#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
pub struct Poseidon2Permutation<T> {
    state: [T; WIDTH],
}
pub trait Permuter2: Sized { fn permute2(input: [Self; WIDTH]) -> [Self; WIDTH]; }
impl<F: Poseidon2> Permuter2 for F { fn permute2(input: [Self; WIDTH]) -> [Self; WIDTH] { F::poseidon2(input) } }
impl Permuter2 for Target { fn permute2(_: [Self; WIDTH]) -> [Self; WIDTH] { panic!("Call `permute_swapped()` instead of `permute()`") } }

impl<T> AsRef<[T]> for Poseidon2Permutation<T> { fn as_ref(&self) -> &[T] { &self.state } }
impl<T: Copy + Debug + Default + Eq + Permuter2 + Send + Sync> PlonkyPermutation<T> for Poseidon2Permutation<T> {
    const RATE: usize = SPONGE_RATE;
    const WIDTH: usize = WIDTH;
    fn new<I: IntoIterator<Item = T>>(elts: I) -> Self {
        let mut perm = Self { state: [T::default(); WIDTH] };
        perm.set_from_iter(elts, 0);
        perm
    }
    fn set_elt(&mut self, elt: T, idx: usize) { self.state[idx] = elt; }
    fn set_from_slice(&mut self, elts: &[T], start_idx: usize) { self.state[start_idx..start_idx + elts.len()].copy_from_slice(elts); }
    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start_idx: usize) {
        for (s, e) in self.state[start_idx..].iter_mut().zip(elts) { *s = e; }
    }
    fn permute(&mut self) { self.state = T::permute2(self.state); }
    fn squeeze(&self) -> &[T] { &self.state[..Self::RATE] }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
pub struct Poseidon2Hash;
impl<F: RichField> Hasher<F> for Poseidon2Hash {
    const HASH_SIZE: usize = 4 * 8;
    type Hash = HashOut<F>;
    type Permutation = Poseidon2Permutation<F>;
    fn hash_no_pad(input: &[F]) -> Self::Hash { hash_n_to_hash_no_pad::<F, Self::Permutation>(input) }
    fn two_to_one(left: Self::Hash, right: Self::Hash) -> Self::Hash { compress::<F, Self::Permutation>(left, right) }
}
impl<F: RichField> AlgebraicHasher<F> for Poseidon2Hash {
    type AlgebraicPermutation = Poseidon2Permutation<Target>;
    fn permute_swapped<const D: usize>(inputs: Self::AlgebraicPermutation, swap: BoolTarget, builder: &mut CircuitBuilder<F, D>) -> Self::AlgebraicPermutation
    where F: RichField + Extendable<D> {
        Poseidon2Permutation { state: builder.permutation_op(PermKind::Poseidon2, inputs.state, swap) }
    }
}
