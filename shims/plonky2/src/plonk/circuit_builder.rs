use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

use anyhow::Result;

use crate::batch_fri::verifier::verify_batch_fri_proof;
use crate::field::extension::{Extendable, FieldExtension, OEF};
use crate::field::polynomial::PolynomialCoeffs;
use crate::field::types::Field;
use crate::fri::proof::*;
use crate::fri::structure::*;
use crate::fri::verifier::verify_fri_proof;
use crate::fri::{FriConfig, FriParams};
use crate::gadgets::polynomial::PolynomialCoeffsExtTarget;
use crate::gates::gate::{Gate, GateRef};
use crate::hash::hash_types::*;
use crate::hash::hashing::PlonkyPermutation;
use crate::hash::merkle_proofs::{MerkleProof, MerkleProofTarget};
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::{BoolTarget, Target};
use crate::iop::witness::PartialWitness;
use crate::plonk::circuit_data::*;
use crate::plonk::config::*;
use crate::plonk::proof::*;
use crate::util::{log2_ceil, reverse_bits};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PermKind { Poseidon, Poseidon2 }

pub struct CircuitBuilder<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    n: usize,
    ops: Vec<Op<F>>,
    connections: Vec<(usize, usize)>,
    consts: HashMap<F, Target>,
    public_inputs: Vec<Target>,
    trace: Vec<u64>,
    noops: usize,
    small: usize,
    big: usize,
    /// The real builder too gives the same target for a repeated arithmetic operation.
    seen: HashMap<(&'static str, F, F, Vec<usize>), Vec<Target>>,
}
fn vt(index: usize) -> Target { Target::VirtualTarget { index } }
fn idxs(t: &[Target]) -> Vec<usize> { t.iter().map(|x| x.idx()).collect() }

impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
    pub fn new(config: CircuitConfig) -> Self {
        Self { config, n: 0, ops: vec![], connections: vec![], consts: HashMap::new(), public_inputs: vec![], trace: vec![], noops: 0, small: 0, big: 0, seen: HashMap::new() }
    }
    fn rec(&mut self, tag: &str, args: &[usize]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in tag.bytes() { h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3); }
        self.trace.push(h);
        self.trace.extend(args.iter().map(|x| *x as u64));
    }
    fn func(&mut self, name: &'static str, deps: Vec<Target>, nout: usize, f: impl Fn(&[F]) -> Vec<F> + Send + Sync + 'static) -> Vec<Target> {
        let outs = self.add_virtual_targets(nout);
        self.rec(name, &idxs(&deps));
        self.rec("->", &idxs(&outs));
        self.small += 1;
        self.ops.push(Op::Func { deps: idxs(&deps), outs: idxs(&outs), f: Arc::new(f), constrained: true });
        outs
    }
    fn check(&mut self, what: &'static str, deps: Vec<Target>, f: impl Fn(&[F]) -> bool + Send + Sync + 'static) {
        self.rec(what, &idxs(&deps));
        self.small += 1;
        self.ops.push(Op::Check { deps: idxs(&deps), f: Arc::new(f), what });
    }
    /// A constrained function of targets, for gadget crates built on this stand-in.
    pub fn custom_function(&mut self, name: &'static str, deps: Vec<Target>, nout: usize, f: impl Fn(&[F]) -> Vec<F> + Send + Sync + 'static) -> Vec<Target> { self.func(name, deps, nout, f) }
    pub fn custom_check(&mut self, name: &'static str, deps: Vec<Target>, f: impl Fn(&[F]) -> bool + Send + Sync + 'static) { self.check(name, deps, f) }

    // targets
    pub fn add_virtual_target(&mut self) -> Target { self.n += 1; vt(self.n - 1) }
    pub fn add_virtual_targets(&mut self, n: usize) -> Vec<Target> { (0..n).map(|_| self.add_virtual_target()).collect() }
    pub fn add_virtual_target_arr<const N: usize>(&mut self) -> [Target; N] { core::array::from_fn(|_| self.add_virtual_target()) }
    pub fn add_virtual_hash(&mut self) -> HashOutTarget { HashOutTarget { elements: self.add_virtual_target_arr() } }
    pub fn add_virtual_hashes(&mut self, n: usize) -> Vec<HashOutTarget> { (0..n).map(|_| self.add_virtual_hash()).collect() }
    pub fn add_virtual_hash_public_input(&mut self) -> HashOutTarget {
        HashOutTarget { elements: core::array::from_fn(|_| self.add_virtual_public_input()) }
    }
    pub fn add_virtual_cap(&mut self, cap_height: usize) -> MerkleCapTarget { MerkleCapTarget(self.add_virtual_hashes(1 << cap_height)) }
    pub fn add_virtual_extension_target(&mut self) -> ExtensionTarget<D> { ExtensionTarget(self.add_virtual_target_arr()) }
    pub fn add_virtual_extension_targets(&mut self, n: usize) -> Vec<ExtensionTarget<D>> { (0..n).map(|_| self.add_virtual_extension_target()).collect() }
    pub fn add_virtual_bool_target_unsafe(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.add_virtual_target()) }
    pub fn add_virtual_bool_target_safe(&mut self) -> BoolTarget { let b = self.add_virtual_bool_target_unsafe(); self.assert_bool(b); b }
    pub fn add_virtual_public_input(&mut self) -> Target { let t = self.add_virtual_target(); self.register_public_input(t); t }
    pub fn add_virtual_public_input_arr<const N: usize>(&mut self) -> [Target; N] { let t = self.add_virtual_target_arr(); self.register_public_inputs(&t); t }
    pub fn add_virtual_poly_coeff_ext(&mut self, n: usize) -> PolynomialCoeffsExtTarget<D> { PolynomialCoeffsExtTarget(self.add_virtual_extension_targets(n)) }
    pub fn add_virtual_verifier_data(&mut self, cap_height: usize) -> VerifierCircuitTarget {
        VerifierCircuitTarget { constants_sigmas_cap: self.add_virtual_cap(cap_height), circuit_digest: self.add_virtual_hash() }
    }
    pub fn add_verifier_data_public_inputs(&mut self) -> VerifierCircuitTarget {
        let v = self.add_virtual_verifier_data(self.config.fri_config.cap_height);
        self.register_public_inputs(&v.circuit_digest.elements);
        for i in 0..v.constants_sigmas_cap.0.len() { self.register_public_inputs(&v.constants_sigmas_cap.0[i].elements.clone()); }
        v
    }
    pub fn add_virtual_proof_with_pis(&mut self, common: &CommonCircuitData<F, D>) -> ProofWithPublicInputsTarget<D> {
        let tag = self.add_virtual_hash();
        let public_inputs = self.add_virtual_targets(common.num_public_inputs);
        ProofWithPublicInputsTarget { proof: ProofTarget { tag }, public_inputs }
    }
    pub fn register_public_input(&mut self, t: Target) { self.rec("pi", &[t.idx()]); self.public_inputs.push(t); }
    pub fn register_public_inputs(&mut self, ts: &[Target]) { for t in ts { self.register_public_input(*t); } }
    pub fn num_public_inputs(&self) -> usize { self.public_inputs.len() }
    pub fn public_inputs(&self) -> &[Target] { &self.public_inputs }

    // gates
    pub fn add_gate<G: Gate>(&mut self, _g: G, _c: Vec<F>) -> usize { self.noops += 1; self.num_gates() - 1 }
    pub fn add_gate_to_gate_set(&mut self, _g: GateRef) {}
    pub fn num_gates(&self) -> usize { self.noops + self.big + (self.small + 9) / 10 }
    pub fn print_gate_counts(&self, _m: usize) {}
    pub fn push_context(&mut self, _l: log::Level, _c: &str) {}
    pub fn pop_context(&mut self) {}

    // wiring
    pub fn connect(&mut self, x: Target, y: Target) { self.rec("connect", &[x.idx(), y.idx()]); self.connections.push((x.idx(), y.idx())); }
    pub fn connect_array<const N: usize>(&mut self, x: [Target; N], y: [Target; N]) { for i in 0..N { self.connect(x[i], y[i]); } }
    pub fn connect_extension(&mut self, x: ExtensionTarget<D>, y: ExtensionTarget<D>) { for i in 0..D { self.connect(x.0[i], y.0[i]); } }
    pub fn connect_hashes(&mut self, x: HashOutTarget, y: HashOutTarget) { for i in 0..4 { self.connect(x.elements[i], y.elements[i]); } }
    pub fn connect_merkle_caps(&mut self, x: &MerkleCapTarget, y: &MerkleCapTarget) { for (a, b) in x.0.iter().zip(&y.0) { self.connect_hashes(*a, *b); } }
    pub fn connect_verifier_data(&mut self, x: &VerifierCircuitTarget, y: &VerifierCircuitTarget) {
        assert_eq!(x.constants_sigmas_cap.0.len(), y.constants_sigmas_cap.0.len());
        self.connect_merkle_caps(&x.constants_sigmas_cap, &y.constants_sigmas_cap);
        self.connect_hashes(x.circuit_digest, y.circuit_digest);
    }
    pub fn assert_zero(&mut self, x: Target) { let z = self.zero(); self.connect(x, z); }
    pub fn assert_one(&mut self, x: Target) { let z = self.one(); self.connect(x, z); }
    pub fn assert_bool(&mut self, b: BoolTarget) { self.check("bool", vec![b.target], |v| v[0].is_zero() || v[0].is_one()); }

    // constants
    pub fn constant(&mut self, c: F) -> Target {
        if let Some(&t) = self.consts.get(&c) { return t; }
        let t = self.add_virtual_target();
        self.rec("const", &[c.to_canonical_u64() as usize, t.idx()]);
        self.consts.insert(c, t);
        self.ops.push(Op::Const { v: c, out: t.idx() });
        t
    }
    pub fn constants(&mut self, c: &[F]) -> Vec<Target> { c.iter().map(|x| self.constant(*x)).collect() }
    pub fn zero(&mut self) -> Target { self.constant(F::ZERO) }
    pub fn one(&mut self) -> Target { self.constant(F::ONE) }
    pub fn two(&mut self) -> Target { self.constant(F::TWO) }
    pub fn neg_one(&mut self) -> Target { self.constant(F::NEG_ONE) }
    pub fn _false(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.zero()) }
    pub fn _true(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.one()) }
    pub fn constant_bool(&mut self, b: bool) -> BoolTarget { if b { self._true() } else { self._false() } }
    pub fn constant_hash(&mut self, h: HashOut<F>) -> HashOutTarget { HashOutTarget { elements: h.elements.map(|x| self.constant(x)) } }
    pub fn constant_merkle_cap<H: Hasher<F, Hash = HashOut<F>>>(&mut self, cap: &MerkleCap<F, H>) -> MerkleCapTarget { MerkleCapTarget(cap.0.iter().map(|h| self.constant_hash(*h)).collect()) }
    pub fn constant_verifier_data<C: GenericConfig<D, F = F>>(&mut self, v: &VerifierOnlyCircuitData<C, D>) -> VerifierCircuitTarget where C::Hasher: AlgebraicHasher<F> {
        VerifierCircuitTarget { constants_sigmas_cap: self.constant_merkle_cap(&v.constants_sigmas_cap), circuit_digest: self.constant_hash(v.circuit_digest) }
    }
    pub fn target_as_constant(&self, t: Target) -> Option<F> { self.consts.iter().find(|(_, x)| **x == t).map(|(c, _)| *c) }

    // base arithmetic
    pub fn arithmetic(&mut self, c0: F, c1: F, a: Target, b: Target, c: Target) -> Target {
        let key = ("arith", c0, c1, idxs(&[a, b, c]));
        if let Some(t) = self.seen.get(&key) { return t[0]; }
        let out = self.add_virtual_target();
        self.seen.insert(key, vec![out]);
        self.rec("arith", &[c0.to_canonical_u64() as usize, c1.to_canonical_u64() as usize, a.idx(), b.idx(), c.idx(), out.idx()]);
        self.small += 1;
        self.ops.push(Op::Arith { c0, c1, a: a.idx(), b: b.idx(), c: c.idx(), out: out.idx() });
        out
    }
    pub fn add(&mut self, x: Target, y: Target) -> Target { let one = self.one(); self.arithmetic(F::ONE, F::ONE, x, one, y) }
    pub fn sub(&mut self, x: Target, y: Target) -> Target { let one = self.one(); self.arithmetic(F::ONE, F::NEG_ONE, x, one, y) }
    pub fn mul(&mut self, x: Target, y: Target) -> Target { self.arithmetic(F::ONE, F::ZERO, x, y, x) }
    pub fn square(&mut self, x: Target) -> Target { self.mul(x, x) }
    pub fn neg(&mut self, x: Target) -> Target { self.mul_const(F::NEG_ONE, x) }
    pub fn mul_add(&mut self, x: Target, y: Target, z: Target) -> Target { self.arithmetic(F::ONE, F::ONE, x, y, z) }
    pub fn mul_sub(&mut self, x: Target, y: Target, z: Target) -> Target { self.arithmetic(F::ONE, F::NEG_ONE, x, y, z) }
    pub fn add_const(&mut self, x: Target, c: F) -> Target { let c = self.constant(c); self.add(x, c) }
    pub fn mul_const(&mut self, c: F, x: Target) -> Target { let c = self.constant(c); self.mul(c, x) }
    pub fn mul_const_add(&mut self, c: F, x: Target, y: Target) -> Target { let c = self.constant(c); self.mul_add(c, x, y) }
    pub fn add_many<T: core::borrow::Borrow<Target>>(&mut self, ts: impl IntoIterator<Item = T>) -> Target { let z = self.zero(); ts.into_iter().fold(z, |a, t| self.add(a, *t.borrow())) }
    pub fn mul_many<T: core::borrow::Borrow<Target>>(&mut self, ts: impl IntoIterator<Item = T>) -> Target { let z = self.one(); ts.into_iter().fold(z, |a, t| self.mul(a, *t.borrow())) }
    pub fn cube(&mut self, x: Target) -> Target { self.mul_many([x, x, x]) }
    pub fn exp_power_of_2(&mut self, mut x: Target, p: usize) -> Target { for _ in 0..p { x = self.square(x); } x }
    pub fn exp_u64(&mut self, base: Target, mut e: u64) -> Target {
        let (mut p, mut b) = (self.one(), base);
        while e != 0 { if e & 1 == 1 { p = self.mul(p, b); } b = self.square(b); e >>= 1; }
        p
    }
    pub fn inverse(&mut self, x: Target) -> Target { self.func("inverse", vec![x], 1, |v| vec![v[0].inverse()])[0] }
    pub fn div(&mut self, x: Target, y: Target) -> Target { let i = self.inverse(y); self.mul(x, i) }
    pub fn not(&mut self, b: BoolTarget) -> BoolTarget { let one = self.one(); BoolTarget::new_unsafe(self.sub(one, b.target)) }
    pub fn and(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { BoolTarget::new_unsafe(self.mul(a.target, b.target)) }
    pub fn or(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget {
        let r = self.arithmetic(F::NEG_ONE, F::ONE, a.target, b.target, a.target);
        BoolTarget::new_unsafe(self.add(r, b.target))
    }
    pub fn _if(&mut self, b: BoolTarget, x: Target, y: Target) -> Target {
        let t = self.mul_sub(b.target, y, y);
        self.mul_sub(b.target, x, t)
    }
    pub fn select(&mut self, b: BoolTarget, x: Target, y: Target) -> Target { self._if(b, x, y) }
    pub fn select_hash(&mut self, b: BoolTarget, x: HashOutTarget, y: HashOutTarget) -> HashOutTarget { HashOutTarget { elements: core::array::from_fn(|i| self.select(b, x.elements[i], y.elements[i])) } }
    pub fn is_equal(&mut self, x: Target, y: Target) -> BoolTarget { BoolTarget::new_unsafe(self.func("is_equal", vec![x, y], 1, |v| vec![F::from_bool(v[0] == v[1])])[0]) }
    pub fn is_nonzero(&mut self, x: Target) -> BoolTarget { BoolTarget::new_unsafe(self.func("is_nonzero", vec![x], 1, |v| vec![F::from_bool(!v[0].is_zero())])[0]) }
    pub fn split_le(&mut self, x: Target, num_bits: usize) -> Vec<BoolTarget> {
        self.rec("split_le", &[num_bits]);
        let bits = self.func("bits", vec![x], num_bits, move |v| { let n = v[0].to_canonical_u64() as u128; (0..num_bits).map(|i| F::from_bool((n >> i.min(127)) & 1 == 1)).collect() });
        self.range_check(x, num_bits);
        bits.into_iter().map(BoolTarget::new_unsafe).collect()
    }
    pub fn le_sum(&mut self, bits: impl Iterator<Item = BoolTarget>) -> Target {
        let v: Vec<_> = bits.map(|b| b.target).collect();
        self.func("le_sum", v, 1, |v| vec![v.iter().rev().fold(F::ZERO, |a, b| a * F::TWO + *b)])[0]
    }
    pub fn range_check(&mut self, x: Target, n: usize) {
        self.rec("rc", &[n]);
        self.check("range_check", vec![x], move |v| n >= 64 || v[0].to_canonical_u64() >> n == 0);
    }
    pub fn split_low_high(&mut self, x: Target, n_log: usize, num_bits: usize) -> (Target, Target) {
        self.rec("slh", &[n_log, num_bits]);
        let o = self.func("split_low_high", vec![x], 2, move |v| {
            let n = v[0].to_canonical_u64();
            vec![F::from_canonical_u64(n & ((1 << n_log) - 1)), F::from_canonical_u64(n >> n_log)]
        });
        self.range_check(o[0], n_log);
        self.range_check(o[1], num_bits - n_log);
        (o[0], o[1])
    }
    pub fn low_bits(&mut self, x: Target, n_low: usize, num_bits: usize) -> Vec<BoolTarget> { let mut r = self.split_le(x, num_bits); r.truncate(n_low); r }
    pub fn random_access(&mut self, idx: Target, v: Vec<Target>) -> Target {
        let mut d = vec![idx]; d.extend(v);
        self.func("random_access", d, 1, |v| vec![v[1 + v[0].to_canonical_u64() as usize]])[0]
    }

    // extension arithmetic
    fn ext_func(&mut self, name: &'static str, args: &[ExtensionTarget<D>], f: impl Fn(&[F::Extension]) -> F::Extension + Send + Sync + 'static) -> ExtensionTarget<D> {
        self.ext_func_c(name, F::ZERO, F::ZERO, args, f)
    }
    fn ext_func_c(&mut self, name: &'static str, c0: F, c1: F, args: &[ExtensionTarget<D>], f: impl Fn(&[F::Extension]) -> F::Extension + Send + Sync + 'static) -> ExtensionTarget<D> {
        let deps: Vec<Target> = args.iter().flat_map(|e| e.0).collect();
        let key = (name, c0, c1, idxs(&deps));
        if let Some(t) = self.seen.get(&key) { return ExtensionTarget(t.clone().try_into().unwrap()); }
        let out = self.func(name, deps, D, move |v| {
            let e: Vec<F::Extension> = v.chunks(D).map(|c| F::Extension::from_basefield_array(c.try_into().unwrap())).collect();
            f(&e).to_basefield_array().to_vec()
        });
        self.seen.insert(key, out.clone());
        ExtensionTarget(out.try_into().unwrap())
    }
    pub fn convert_to_ext(&mut self, t: Target) -> ExtensionTarget<D> { let z = self.zero(); t.to_ext_target(z) }
    pub fn constant_extension(&mut self, c: F::Extension) -> ExtensionTarget<D> { ExtensionTarget(c.to_basefield_array().map(|x| self.constant(x))) }
    pub fn zero_extension(&mut self) -> ExtensionTarget<D> { self.constant_extension(F::Extension::ZERO) }
    pub fn one_extension(&mut self) -> ExtensionTarget<D> { self.constant_extension(F::Extension::ONE) }
    pub fn two_extension(&mut self) -> ExtensionTarget<D> { self.constant_extension(F::Extension::TWO) }
    pub fn neg_one_extension(&mut self) -> ExtensionTarget<D> { self.constant_extension(F::Extension::NEG_ONE) }
    pub fn arithmetic_extension(&mut self, c0: F, c1: F, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> {
        self.rec("c", &[c0.to_canonical_u64() as usize, c1.to_canonical_u64() as usize]);
        self.ext_func_c("arith_ext", c0, c1, &[a, b, c], move |v| (v[0] * v[1]).scalar_mul(c0) + v[2].scalar_mul(c1))
    }
    pub fn add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { self.ext_func("add_ext", &[a, b], |v| v[0] + v[1]) }
    pub fn sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { self.ext_func("sub_ext", &[a, b], |v| v[0] - v[1]) }
    pub fn mul_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { self.ext_func("mul_ext", &[a, b], |v| v[0] * v[1]) }
    pub fn square_extension(&mut self, a: ExtensionTarget<D>) -> ExtensionTarget<D> { self.mul_extension(a, a) }
    pub fn mul_add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { self.ext_func("mul_add_ext", &[a, b, c], |v| v[0] * v[1] + v[2]) }
    pub fn mul_sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { self.ext_func("mul_sub_ext", &[a, b, c], |v| v[0] * v[1] - v[2]) }
    pub fn mul_const_extension(&mut self, c: F, a: ExtensionTarget<D>) -> ExtensionTarget<D> { let c = self.constant_extension(c.into()); self.mul_extension(c, a) }
    pub fn mul_const_add_extension(&mut self, c: F, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let c = self.constant_extension(c.into()); self.mul_add_extension(c, a, b) }
    pub fn add_const_extension(&mut self, a: ExtensionTarget<D>, c: F) -> ExtensionTarget<D> { let c = self.constant_extension(c.into()); self.add_extension(a, c) }
    pub fn scalar_mul_ext(&mut self, a: Target, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let a = self.convert_to_ext(a); self.mul_extension(a, b) }
    pub fn div_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { self.ext_func("div_ext", &[a, b], |v| v[0] / v[1]) }
    pub fn inverse_extension(&mut self, a: ExtensionTarget<D>) -> ExtensionTarget<D> { self.ext_func("inv_ext", &[a], |v| v[0].inverse()) }
    pub fn neg_extension(&mut self, a: ExtensionTarget<D>) -> ExtensionTarget<D> { let z = self.zero_extension(); self.sub_extension(z, a) }
    pub fn add_many_extension<T: core::borrow::Borrow<ExtensionTarget<D>>>(&mut self, ts: impl IntoIterator<Item = T>) -> ExtensionTarget<D> { let z = self.zero_extension(); ts.into_iter().fold(z, |a, t| self.add_extension(a, *t.borrow())) }
    pub fn mul_many_extension<T: core::borrow::Borrow<ExtensionTarget<D>>>(&mut self, ts: impl IntoIterator<Item = T>) -> ExtensionTarget<D> { let z = self.one_extension(); ts.into_iter().fold(z, |a, t| self.mul_extension(a, *t.borrow())) }
    pub fn exp_power_of_2_extension(&mut self, mut x: ExtensionTarget<D>, p: usize) -> ExtensionTarget<D> { for _ in 0..p { x = self.square_extension(x); } x }
    pub fn exp_u64_extension(&mut self, base: ExtensionTarget<D>, mut e: u64) -> ExtensionTarget<D> {
        let (mut p, mut b) = (self.one_extension(), base);
        while e != 0 { if e & 1 == 1 { p = self.mul_extension(p, b); } b = self.square_extension(b); e >>= 1; }
        p
    }
    pub fn inner_product_extension(&mut self, constant: F, start: ExtensionTarget<D>, pairs: Vec<(ExtensionTarget<D>, ExtensionTarget<D>)>) -> ExtensionTarget<D> {
        pairs.into_iter().fold(start, |acc, (a, b)| self.arithmetic_extension(constant, F::ONE, a, b, acc))
    }
    pub fn select_ext(&mut self, b: BoolTarget, x: ExtensionTarget<D>, y: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(core::array::from_fn(|i| self.select(b, x.0[i], y.0[i]))) }

    // hashing
    pub fn permutation_op(&mut self, kind: PermKind, inputs: [Target; 12], swap: BoolTarget) -> [Target; 12] {
        let mut deps = inputs.to_vec();
        deps.push(swap.target);
        self.big += 1;
        let name = match kind { PermKind::Poseidon => "poseidon", PermKind::Poseidon2 => "poseidon2" };
        self.func(name, deps, 12, move |v| {
            let mut s: [F; 12] = v[..12].try_into().unwrap();
            if v[12].is_one() { for i in 0..4 { s.swap(i, 4 + i); } }
            match kind { PermKind::Poseidon => F::poseidon(s), PermKind::Poseidon2 => F::poseidon2(s) }.to_vec()
        }).try_into().unwrap()
    }
    pub fn permute<H: AlgebraicHasher<F>>(&mut self, inputs: H::AlgebraicPermutation) -> H::AlgebraicPermutation {
        let f = self._false();
        self.permute_swapped::<H>(inputs, f)
    }
    pub fn permute_swapped<H: AlgebraicHasher<F>>(&mut self, inputs: H::AlgebraicPermutation, swap: BoolTarget) -> H::AlgebraicPermutation { H::permute_swapped(inputs, swap, self) }
    pub fn hash_n_to_m_no_pad<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>, num_outputs: usize) -> Vec<Target> {
        let zero = self.zero();
        let mut state = H::AlgebraicPermutation::new(core::iter::repeat(zero));
        for chunk in inputs.chunks(H::AlgebraicPermutation::RATE) {
            state.set_from_slice(chunk, 0);
            state = self.permute::<H>(state);
        }
        let mut out = vec![];
        loop {
            for &s in state.squeeze() { out.push(s); if out.len() == num_outputs { return out; } }
            state = self.permute::<H>(state);
        }
    }
    pub fn hash_n_to_hash_no_pad<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>) -> HashOutTarget { HashOutTarget::from_vec(self.hash_n_to_m_no_pad::<H>(inputs, 4)) }
    pub fn hash_or_noop<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>) -> HashOutTarget {
        let zero = self.zero();
        if inputs.len() <= 4 { HashOutTarget::from_partial(&inputs, zero) } else { self.hash_n_to_hash_no_pad::<H>(inputs) }
    }
    pub fn hash_pad<H: AlgebraicHasher<F>>(&mut self, mut inputs: Vec<Target>) -> HashOutTarget {
        let (zero, one) = (self.zero(), self.one());
        inputs.push(one);
        while (inputs.len() + 1) % H::AlgebraicPermutation::RATE != 0 { inputs.push(zero); }
        inputs.push(one);
        self.hash_n_to_hash_no_pad::<H>(inputs)
    }

    // recursion
    pub fn verify_proof<C: GenericConfig<D, F = F>>(&mut self, p: &ProofWithPublicInputsTarget<D>, vk: &VerifierCircuitTarget, common: &CommonCircuitData<F, D>) where C::Hasher: AlgebraicHasher<F> {
        assert_eq!(p.public_inputs.len(), common.num_public_inputs);
        let fp = common.fingerprint();
        let mut deps: Vec<Target> = p.proof.tag.elements.to_vec();
        let vk_t: Vec<Target> = vk.constants_sigmas_cap.0.iter().flat_map(|h| h.elements).chain(vk.circuit_digest.elements).collect();
        let k = vk_t.len();
        deps.extend(vk_t);
        deps.extend(&p.public_inputs);
        self.rec("fp", &fp.iter().map(|x| x.to_canonical_u64() as usize).collect::<Vec<_>>());
        self.big += 400 + 60 * common.config.fri_config.num_query_rounds;
        self.check("verify_proof", deps, move |v| tag_of(&v[4..4 + k], &fp, &v[4 + k..]).elements[..] == v[..4]);
    }
    pub fn add_virtual_fri_proof(&mut self, num_leaves_per_oracle: &[usize], params: &FriParams) -> FriProofTarget<D> {
        let cap_height = params.config.cap_height;
        let caps = (0..params.reduction_arity_bits.len()).map(|_| self.add_virtual_cap(cap_height)).collect();
        let rounds = (0..params.config.num_query_rounds).map(|_| {
            let lde = params.lde_bits();
            let initial = num_leaves_per_oracle.iter().map(|&k| (self.add_virtual_targets(k), MerkleProofTarget { siblings: self.add_virtual_hashes(lde - cap_height) })).collect();
            let mut bits = lde;
            let steps = params.reduction_arity_bits.iter().map(|&a| {
                bits -= a;
                FriQueryStepTarget { evals: self.add_virtual_extension_targets(1 << a), merkle_proof: MerkleProofTarget { siblings: self.add_virtual_hashes(bits - cap_height) } }
            }).collect();
            FriQueryRoundTarget { initial_trees_proof: FriInitialTreeProofTarget { evals_proofs: initial }, steps }
        }).collect();
        FriProofTarget { commit_phase_merkle_caps: caps, query_round_proofs: rounds, final_poly: self.add_virtual_poly_coeff_ext(params.final_poly_len()), pow_witness: self.add_virtual_target() }
    }
    pub fn verify_fri_proof<C: GenericConfig<D, F = F>>(&mut self, instance: &FriInstanceInfoTarget<D>, openings: &FriOpeningsTarget<D>, challenges: &FriChallengesTarget<D>, initial_merkle_caps: &[MerkleCapTarget], proof: &FriProofTarget<D>, params: &FriParams)
    where C::Hasher: AlgebraicHasher<F> {
        let mut g = Gather { deps: vec![] };
        let (ins, op, ch, caps, pr) = (g.instance::<F, D>(instance), g.openings::<F, D>(openings), g.challenges::<F, D>(challenges, params), g.caps::<F>(initial_merkle_caps), g.proof(proof));
        let params = params.clone();
        self.big += 500 + 100 * params.config.num_query_rounds;
        self.check("verify_fri_proof", g.deps, move |v| {
            verify_fri_proof::<F, C, D>(&ins(v), &op(v), &ch(v), &caps(v).into_iter().map(MerkleCap).collect::<Vec<_>>(), &pr.get::<F, C, D>(v), &params).is_ok()
        });
    }
    pub fn verify_batch_fri_proof<C: GenericConfig<D, F = F>>(&mut self, degree_bits: &[usize], instances: &[FriInstanceInfoTarget<D>], openings: &[FriOpeningsTarget<D>], challenges: &FriChallengesTarget<D>, initial_merkle_caps: &[MerkleCapTarget], proof: &FriProofTarget<D>, params: &FriParams)
    where C::Hasher: AlgebraicHasher<F> {
        let mut g = Gather { deps: vec![] };
        let ins: Vec<_> = instances.iter().map(|i| g.instance::<F, D>(i)).collect();
        let op: Vec<_> = openings.iter().map(|i| g.openings::<F, D>(i)).collect();
        let (ch, caps, pr) = (g.challenges::<F, D>(challenges, params), g.caps::<F>(initial_merkle_caps), g.proof(proof));
        let (params, degree_bits) = (params.clone(), degree_bits.to_vec());
        self.big += 500 + 100 * params.config.num_query_rounds;
        self.check("verify_batch_fri_proof", g.deps, move |v| {
            verify_batch_fri_proof::<F, C, D>(&degree_bits, &ins.iter().map(|f| f(v)).collect::<Vec<_>>(), &op.iter().map(|f| f(v)).collect::<Vec<_>>(), &ch(v), &caps(v).into_iter().map(MerkleCap).collect::<Vec<_>>(), &pr.get::<F, C, D>(v), &params).is_ok()
        });
    }

    pub fn build<C: GenericConfig<D, F = F>>(self) -> CircuitData<F, C, D> {
        let mut rep: Vec<usize> = (0..self.n).collect();
        fn find(rep: &mut [usize], mut x: usize) -> usize { while rep[x] != x { rep[x] = rep[rep[x]]; x = rep[x]; } x }
        for (a, b) in &self.connections {
            let (a, b) = (find(&mut rep, *a), find(&mut rep, *b));
            if a != b { rep[a.max(b)] = a.min(b); }
        }
        for i in 0..self.n { rep[i] = find(&mut rep, i); }
        let degree_bits = log2_ceil(self.num_gates().max(4) + 2);
        let common = CommonCircuitData {
            fri_params: self.config.fri_config.fri_params(degree_bits, self.config.zero_knowledge),
            gates: vec![GateRef("StandIn".into())],
            num_public_inputs: self.public_inputs.len(),
            degree_bits_: degree_bits,
            config: self.config.clone(),
            _f: core::marker::PhantomData,
        };
        let mut words: Vec<F> = self.trace.iter().map(|x| F::from_noncanonical_u64(*x)).collect();
        words.push(F::from_canonical_usize(degree_bits));
        let digest = C::Hasher::hash_no_pad(&words);
        let cap = (0..1usize << self.config.fri_config.cap_height).map(|i| {
            let mut v = digest.to_vec(); v.push(F::from_canonical_usize(i)); v.push(F::ONE);
            C::Hasher::hash_no_pad(&v)
        }).collect();
        CircuitData {
            prover_only: ProverOnlyCircuitData { public_inputs: self.public_inputs, ops: Arc::new(self.ops), rep: Arc::new(rep), digest: digest.to_vec(), _c: core::marker::PhantomData },
            verifier_only: VerifierOnlyCircuitData { constants_sigmas_cap: MerkleCap(cap), circuit_digest: digest },
            common,
        }
    }
}

type Get<T, F> = Box<dyn Fn(&[F]) -> T + Send + Sync>;
type R = core::ops::Range<usize>;
struct Gather { deps: Vec<Target> }
fn exts<F: RichField + Extendable<D>, const D: usize>(v: &[F]) -> Vec<F::Extension> { v.chunks(D).map(|c| F::Extension::from_basefield_array(c.try_into().unwrap())).collect() }
fn hashes<F: RichField>(v: &[F]) -> Vec<HashOut<F>> { v.chunks(4).map(|c| HashOut::from_vec(c.to_vec())).collect() }
struct ProofLayout { caps: Vec<R>, rounds: Vec<(Vec<(R, R)>, Vec<(R, R)>)>, final_poly: R, pow: R }
impl ProofLayout {
    fn get<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(&self, v: &[F]) -> FriProof<F, C::Hasher, D> where C::Hasher: AlgebraicHasher<F> {
        FriProof {
            commit_phase_merkle_caps: self.caps.iter().map(|r| MerkleCap(hashes(&v[r.clone()]))).collect(),
            query_round_proofs: self.rounds.iter().map(|(i, s)| FriQueryRound {
                initial_trees_proof: FriInitialTreeProof { evals_proofs: i.iter().map(|(e, m)| (v[e.clone()].to_vec(), MerkleProof { siblings: hashes(&v[m.clone()]) })).collect() },
                steps: s.iter().map(|(e, m)| FriQueryStep { evals: exts::<F, D>(&v[e.clone()]), merkle_proof: MerkleProof { siblings: hashes(&v[m.clone()]) } }).collect(),
            }).collect(),
            final_poly: PolynomialCoeffs::new(exts::<F, D>(&v[self.final_poly.clone()])),
            pow_witness: v[self.pow.start],
        }
    }
}
impl Gather {
    fn many(&mut self, t: &[Target]) -> R { let s = self.deps.len(); self.deps.extend_from_slice(t); s..self.deps.len() }
    fn ext<const D: usize>(&mut self, t: &[ExtensionTarget<D>]) -> R { let v: Vec<Target> = t.iter().flat_map(|e| e.0).collect(); self.many(&v) }
    fn hash(&mut self, t: &[HashOutTarget]) -> R { let v: Vec<Target> = t.iter().flat_map(|e| e.elements).collect(); self.many(&v) }
    fn instance<F: RichField + Extendable<D>, const D: usize>(&mut self, i: &FriInstanceInfoTarget<D>) -> Get<FriInstanceInfo<F, D>, F> {
        let pts = self.ext(&i.batches.iter().map(|b| b.point).collect::<Vec<_>>());
        let i = i.clone();
        Box::new(move |v| FriInstanceInfo {
            oracles: i.oracles.clone(),
            batches: i.batches.iter().zip(exts::<F, D>(&v[pts.clone()])).map(|(b, point)| FriBatchInfo { point, polynomials: b.polynomials.clone() }).collect(),
        })
    }
    fn openings<F: RichField + Extendable<D>, const D: usize>(&mut self, o: &FriOpeningsTarget<D>) -> Get<FriOpenings<F, D>, F> {
        let r: Vec<_> = o.batches.iter().map(|b| self.ext(&b.values)).collect();
        Box::new(move |v| FriOpenings { batches: r.iter().map(|x| FriOpeningBatch { values: exts::<F, D>(&v[x.clone()]) }).collect() })
    }
    fn challenges<F: RichField + Extendable<D>, const D: usize>(&mut self, c: &FriChallengesTarget<D>, params: &FriParams) -> Get<FriChallenges<F, D>, F> {
        let (a, b, p, q) = (self.ext(&[c.fri_alpha]), self.ext(&c.fri_betas), self.many(&[c.fri_pow_response]), self.many(&c.fri_query_indices));
        let lde = params.lde_size();
        Box::new(move |v| FriChallenges {
            fri_alpha: exts::<F, D>(&v[a.clone()])[0],
            fri_betas: exts::<F, D>(&v[b.clone()]),
            fri_pow_response: v[p.start],
            fri_query_indices: v[q.clone()].iter().map(|x| x.to_canonical_u64() as usize % lde).collect(),
        })
    }
    fn caps<F: RichField>(&mut self, caps: &[MerkleCapTarget]) -> Get<Vec<Vec<HashOut<F>>>, F> {
        let r: Vec<_> = caps.iter().map(|c| self.hash(&c.0)).collect();
        Box::new(move |v| r.iter().map(|x| hashes(&v[x.clone()])).collect())
    }
    fn proof<const D: usize>(&mut self, p: &FriProofTarget<D>) -> ProofLayout {
        ProofLayout {
            caps: p.commit_phase_merkle_caps.iter().map(|c| self.hash(&c.0)).collect(),
            rounds: p.query_round_proofs.iter().map(|q| (
                q.initial_trees_proof.evals_proofs.iter().map(|(e, m)| (self.many(e), self.hash(&m.siblings))).collect(),
                q.steps.iter().map(|s| (self.ext(&s.evals), self.hash(&s.merkle_proof.siblings))).collect(),
            )).collect(),
            final_poly: self.ext(&p.final_poly.0),
            pow: self.many(&[p.pow_witness]),
        }
    }
}
