
use core::fmt::Debug;
use serde::{Deserialize, Serialize};

use crate::field::extension::Extendable;
use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::{Field, PrimeField64};
use crate::hash::hash_types::{HashOut, RichField};
use crate::hash::hashing::{compress, hash_n_to_hash_no_pad, PlonkyPermutation};
use crate::iop::target::{BoolTarget, Target};
use crate::plonk::circuit_builder::{CircuitBuilder, PermKind};
use crate::plonk::config::{AlgebraicHasher, Hasher};


use crate::hash::poseidon2::Poseidon2;
pub const SPONGE_RATE: usize = 8;
pub const SPONGE_CAPACITY: usize = 4;
pub const SPONGE_WIDTH: usize = SPONGE_RATE + SPONGE_CAPACITY;
pub const WIDTH: usize = SPONGE_WIDTH;

/// A permutation distinct from Poseidon2 (stand-in: Poseidon2 conjugated by constant additions).
pub trait Poseidon: PrimeField64 {
    fn poseidon(input: [Self; WIDTH]) -> [Self; WIDTH];
}
impl Poseidon for GoldilocksField {
    fn poseidon(mut input: [Self; WIDTH]) -> [Self; WIDTH] {
        const RC: [u64; 12] = [0x23338d77a85f1bb1, 0xc98814f96d0ddf7c, 0xaaab1d1aff923deb, 0x3b2b00a3c62b90df, 0xde8702f072b085eb, 0xc9e7d18488c245a7, 0x717823a205b96ee9, 0xcaa792ea00d447ba, 0xe5a357afe3236ce2, 0xa2d47c582cee81e5, 0xc14012608a2942cd, 0x4c31c72e076aa697];
        for i in 0..WIDTH { input[i] += Self(RC[i]); }
        let mut out = Self::poseidon2(input);
        for i in 0..WIDTH { out[i] -= Self(RC[i]); }
        out
    }
}
#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
pub struct PoseidonPermutation<T> {
    state: [T; WIDTH],
}
pub trait Permuter: Sized { fn permute1(input: [Self; WIDTH]) -> [Self; WIDTH]; }
impl<F: Poseidon> Permuter for F { fn permute1(input: [Self; WIDTH]) -> [Self; WIDTH] { F::poseidon(input) } }
impl Permuter for Target { fn permute1(_: [Self; WIDTH]) -> [Self; WIDTH] { panic!("Call `permute_swapped()` instead of `permute()`") } }

impl<T> AsRef<[T]> for PoseidonPermutation<T> { fn as_ref(&self) -> &[T] { &self.state } }
impl<T: Copy + Debug + Default + Eq + Permuter + Send + Sync> PlonkyPermutation<T> for PoseidonPermutation<T> {
    const RATE: usize = SPONGE_RATE;
    const WIDTH: usize = WIDTH;
    fn new<I: IntoIterator<Item = T>>(elts: I) -> Self {
        let mut perm = Self { state: [T::default(); WIDTH] };
        perm.set_from_iter(elts, 0);
        perm
    }
    fn set_elt(&mut self, elt: T, idx: usize) { self.state[idx] = elt; }
    fn set_from_slice(&mut self, elts: &[T], start_idx: usize) { self.state[start_idx..start_idx + elts.len()].copy_from_slice(elts); }
    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start_idx: usize) {
        for (s, e) in self.state[start_idx..].iter_mut().zip(elts) { *s = e; }
    }
    fn permute(&mut self) { self.state = T::permute1(self.state); }
    fn squeeze(&self) -> &[T] { &self.state[..Self::RATE] }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
pub struct PoseidonHash;
impl<F: RichField> Hasher<F> for PoseidonHash {
    const HASH_SIZE: usize = 4 * 8;
    type Hash = HashOut<F>;
    type Permutation = PoseidonPermutation<F>;
    fn hash_no_pad(input: &[F]) -> Self::Hash { hash_n_to_hash_no_pad::<F, Self::Permutation>(input) }
    fn two_to_one(left: Self::Hash, right: Self::Hash) -> Self::Hash { compress::<F, Self::Permutation>(left, right) }
}
impl<F: RichField> AlgebraicHasher<F> for PoseidonHash {
    type AlgebraicPermutation = PoseidonPermutation<Target>;
    fn permute_swapped<const D: usize>(inputs: Self::AlgebraicPermutation, swap: BoolTarget, builder: &mut CircuitBuilder<F, D>) -> Self::AlgebraicPermutation
    where F: RichField + Extendable<D> {
        PoseidonPermutation { state: builder.permutation_op(PermKind::Poseidon, inputs.state, swap) }
    }
}
