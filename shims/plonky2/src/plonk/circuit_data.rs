use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

use anyhow::{ensure, Result};
use serde::Serialize;

use crate::field::extension::Extendable;
use crate::field::types::Field;
use crate::fri::reduction_strategies::FriReductionStrategy;
use crate::fri::{FriConfig, FriParams};
use crate::gates::gate::GateRef;
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::hashing::hash_n_to_hash_no_pad;
use crate::hash::merkle_tree::MerkleCap;
use crate::hash::poseidon::PoseidonPermutation;
use crate::iop::target::Target;
use crate::iop::witness::PartialWitness;
use crate::plonk::config::{AlgebraicHasher, GenericConfig, GenericHashOut, Hasher};
use crate::plonk::proof::{Proof, ProofWithPublicInputs};
use crate::util::serialization::{IoError, IoResult};

#[derive(Clone, Debug, Eq, PartialEq, Serialize)]
pub struct CircuitConfig {
    pub num_wires: usize,
    pub num_routed_wires: usize,
    pub num_constants: usize,
    pub use_base_arithmetic_gate: bool,
    pub security_bits: usize,
    pub num_challenges: usize,
    pub zero_knowledge: bool,
    pub max_quotient_degree_factor: usize,
    pub fri_config: FriConfig,
}
impl Default for CircuitConfig { fn default() -> Self { Self::standard_recursion_config() } }
impl CircuitConfig {
    pub const fn num_advice_wires(&self) -> usize { self.num_wires - self.num_routed_wires }
    pub const fn standard_recursion_config() -> Self {
        Self {
            num_wires: 135,
            num_routed_wires: 80,
            num_constants: 2,
            use_base_arithmetic_gate: true,
            security_bits: 100,
            num_challenges: 2,
            zero_knowledge: false,
            max_quotient_degree_factor: 8,
            fri_config: FriConfig {
                rate_bits: 3,
                cap_height: 4,
                proof_of_work_bits: 16,
                reduction_strategy: FriReductionStrategy::ConstantArityBits(4, 5),
                num_query_rounds: 28,
            },
        }
    }
    pub fn standard_ecc_config() -> Self { Self { num_wires: 136, ..Self::standard_recursion_config() } }
    pub fn wide_ecc_config() -> Self { Self { num_wires: 234, ..Self::standard_recursion_config() } }
    pub fn standard_recursion_zk_config() -> Self { CircuitConfig { zero_knowledge: true, ..Self::standard_recursion_config() } }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct CommonCircuitData<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    pub fri_params: FriParams,
    pub gates: Vec<GateRef>,
    pub num_public_inputs: usize,
    pub degree_bits_: usize,
    pub _f: core::marker::PhantomData<fn() -> F>,
}
impl<F: RichField + Extendable<D>, const D: usize> CommonCircuitData<F, D> {
    pub const fn degree_bits(&self) -> usize { self.degree_bits_ }
    pub const fn degree(&self) -> usize { 1 << self.degree_bits_ }
    pub(crate) fn fingerprint(&self) -> Vec<F> {
        let c = &self.config;
        [self.num_public_inputs, self.degree_bits_, c.num_wires, c.num_challenges, c.zero_knowledge as usize, c.security_bits, c.fri_config.rate_bits,
            c.fri_config.cap_height, c.fri_config.proof_of_work_bits as usize, c.fri_config.num_query_rounds].into_iter().map(F::from_canonical_usize).collect()
    }
}

#[derive(Clone, Debug, Eq, PartialEq, Serialize)]
#[serde(bound = "")]
pub struct VerifierOnlyCircuitData<C: GenericConfig<D>, const D: usize> {
    pub constants_sigmas_cap: MerkleCap<C::F, C::Hasher>,
    pub circuit_digest: <<C as GenericConfig<D>>::Hasher as Hasher<C::F>>::Hash,
}
impl<C: GenericConfig<D>, const D: usize> VerifierOnlyCircuitData<C, D> {
    pub fn to_bytes(&self) -> IoResult<Vec<u8>> {
        let mut v = (self.constants_sigmas_cap.0.len() as u64).to_le_bytes().to_vec();
        for h in &self.constants_sigmas_cap.0 { v.extend(h.to_bytes()); }
        v.extend(self.circuit_digest.to_bytes());
        Ok(v)
    }
    pub fn from_bytes(bytes: Vec<u8>) -> IoResult<Self> {
        let size = <C::Hasher as Hasher<C::F>>::HASH_SIZE;
        if bytes.len() < 8 { return Err(IoError); }
        let n = u64::from_le_bytes(bytes[..8].try_into().unwrap()) as usize;
        if n > 1 << 20 || bytes.len() != 8 + (n + 1) * size { return Err(IoError); }
        let mut hs: Vec<_> = bytes[8..].chunks(size).map(|c| <C::Hasher as Hasher<C::F>>::Hash::from_bytes(c)).collect();
        let circuit_digest = hs.pop().unwrap();
        Ok(Self { constants_sigmas_cap: MerkleCap(hs), circuit_digest })
    }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct VerifierCircuitTarget {
    pub constants_sigmas_cap: MerkleCapTarget,
    pub circuit_digest: HashOutTarget,
}

pub(crate) type GenFn<F> = Arc<dyn Fn(&[F]) -> Vec<F> + Send + Sync>;
pub(crate) type CheckFn<F> = Arc<dyn Fn(&[F]) -> bool + Send + Sync>;
pub(crate) enum Op<F> {
    /// out = c0*a*b + c1*c
    Arith { c0: F, c1: F, a: usize, b: usize, c: usize, out: usize },
    Const { v: F, out: usize },
    /// Computes the outputs from the inputs, and constrains them to be those values.
    Func { deps: Vec<usize>, outs: Vec<usize>, f: GenFn<F>, constrained: bool },
    Check { deps: Vec<usize>, f: CheckFn<F>, what: &'static str },
}

/// Prover data: the recorded operations and the copy-constraint partition.
pub struct ProverOnlyCircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub public_inputs: Vec<Target>,
    pub(crate) ops: Arc<Vec<Op<F>>>,
    pub(crate) rep: Arc<Vec<usize>>,
    pub(crate) digest: Vec<F>,
    pub _c: core::marker::PhantomData<fn() -> C>,
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> core::fmt::Debug for ProverOnlyCircuitData<F, C, D> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "ProverOnlyCircuitData({:?})", self.digest) }
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> PartialEq for ProverOnlyCircuitData<F, C, D> {
    fn eq(&self, o: &Self) -> bool { self.digest == o.digest && self.public_inputs == o.public_inputs }
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> Eq for ProverOnlyCircuitData<F, C, D> {}

#[derive(Debug, Eq, PartialEq)]
pub struct CircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub prover_only: ProverOnlyCircuitData<F, C, D>,
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}
#[derive(Debug, Clone, Eq, PartialEq)]
pub struct VerifierCircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> VerifierCircuitData<F, C, D> {
    pub fn verify(&self, p: ProofWithPublicInputs<F, C, D>) -> Result<()> { verify_tag(&self.verifier_only, &self.common, &p) }
}

pub(crate) fn tag_of<F: RichField>(vk: &[F], fingerprint: &[F], pis: &[F]) -> HashOut<F> {
    let mut v = vec![F::from_canonical_u64(0x7a67_5f73_7461_6e64)];
    v.extend_from_slice(vk);
    v.extend_from_slice(fingerprint);
    v.extend_from_slice(pis);
    hash_n_to_hash_no_pad::<F, PoseidonPermutation<F>>(&v)
}
pub(crate) fn vk_elements<C: GenericConfig<D>, const D: usize>(vk: &VerifierOnlyCircuitData<C, D>) -> Vec<C::F> {
    let mut v = vk.constants_sigmas_cap.flatten();
    v.extend(vk.circuit_digest.to_vec());
    v
}
fn verify_tag<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(vk: &VerifierOnlyCircuitData<C, D>, common: &CommonCircuitData<F, D>, p: &ProofWithPublicInputs<F, C, D>) -> Result<()> {
    ensure!(p.public_inputs.len() == common.num_public_inputs, "Number of public inputs doesn't match circuit data.");
    ensure!(p.proof.tag == tag_of(&vk_elements(vk), &common.fingerprint(), &p.public_inputs), "invalid proof");
    Ok(())
}

fn set<F: Field>(vals: &mut [Option<F>], ix: usize, v: F) -> bool {
    match vals[ix] {
        Some(old) => {
            assert!(old == v, "Partition containing target {} was set twice with different values: {} != {}", ix, old, v);
            false
        }
        None => { vals[ix] = Some(v); true }
    }
}

impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> CircuitData<F, C, D> {
    /// Evaluates the circuit; the assignment, and the first violated constraint if any.
    pub fn evaluate(&self, inputs: &PartialWitness<F>) -> (Vec<F>, Option<String>) {
        let (ops, rep) = (&*self.prover_only.ops, &*self.prover_only.rep);
        let mut vals: Vec<Option<F>> = vec![None; rep.len()];
        let mut sorted: Vec<_> = inputs.target_values.iter().map(|(t, v)| (t.idx(), *v)).collect();
        sorted.sort_by_key(|x| x.0);
        for (t, v) in sorted { set(&mut vals, rep[t], v); }
        let mut done = vec![false; ops.len()];
        let deps_of = |op: &Op<F>| -> Vec<usize> {
            match op {
                Op::Arith { c0, c1, a, b, c, .. } => {
                    let mut d = vec![];
                    if !c0.is_zero() { d.push(rep[*a]); d.push(rep[*b]); }
                    if !c1.is_zero() { d.push(rep[*c]); }
                    d
                }
                Op::Const { .. } => vec![],
                Op::Func { deps, .. } | Op::Check { deps, .. } => deps.iter().map(|x| rep[*x]).collect(),
            }
        };
        // watchers: target -> ops waiting on it
        let mut waiting: HashMap<usize, Vec<usize>> = HashMap::new();
        let mut queue: std::collections::VecDeque<usize> = (0..ops.len()).collect();
        while let Some(i) = queue.pop_front() {
            if done[i] { continue; }
            if let Op::Check { .. } = ops[i] { done[i] = true; continue; }
            if let Some(&missing) = deps_of(&ops[i]).iter().find(|&&d| vals[d].is_none()) {
                waiting.entry(missing).or_default().push(i);
                continue;
            }
            done[i] = true;
            let mut wake = |vals: &mut Vec<Option<F>>, out: usize, v: F| {
                if set(vals, out, v) { if let Some(w) = waiting.remove(&out) { queue.extend(w); } }
            };
            match &ops[i] {
                Op::Arith { c0, c1, a, b, c, out } => {
                    let mut v = F::ZERO;
                    if !c0.is_zero() { v += *c0 * vals[rep[*a]].unwrap() * vals[rep[*b]].unwrap(); }
                    if !c1.is_zero() { v += *c1 * vals[rep[*c]].unwrap(); }
                    wake(&mut vals, rep[*out], v)
                }
                Op::Const { v, out } => wake(&mut vals, rep[*out], *v),
                Op::Func { deps, outs, f, .. } => {
                    let d: Vec<F> = deps.iter().map(|x| vals[rep[*x]].unwrap()).collect();
                    let o = f(&d);
                    assert_eq!(o.len(), outs.len());
                    for (out, v) in outs.iter().zip(o) { wake(&mut vals, rep[*out], v); }
                }
                Op::Check { .. } => unreachable!(),
            }
        }
        let left = done.iter().filter(|d| !**d).count();
        assert_eq!(left, 0, "{left} generators weren't run");
        let vals: Vec<F> = vals.into_iter().map(|v| v.unwrap_or(F::ZERO)).collect();
        let mut bad = None;
        for op in ops {
            if let Op::Check { deps, f, what } = op {
                let d: Vec<F> = deps.iter().map(|x| vals[rep[*x]]).collect();
                if !f(&d) { bad = Some(format!("constraint violated: {what}")); break; }
            }
        }
        (vals, bad)
    }
    pub fn prove(&self, inputs: PartialWitness<F>) -> Result<ProofWithPublicInputs<F, C, D>> {
        let (vals, bad) = self.evaluate(&inputs);
        let public_inputs: Vec<F> = self.prover_only.public_inputs.iter().map(|t| vals[self.prover_only.rep[t.idx()]]).collect();
        // A violated constraint yields a proof no verifier accepts, as with the real prover.
        let tag = if bad.is_none() { tag_of(&vk_elements(&self.verifier_only), &self.common.fingerprint(), &public_inputs) } else { HashOut::ZERO };
        Ok(ProofWithPublicInputs { proof: Proof { tag, _c: core::marker::PhantomData }, public_inputs })
    }
    pub fn verify(&self, p: ProofWithPublicInputs<F, C, D>) -> Result<()> { verify_tag(&self.verifier_only, &self.common, &p) }
    pub fn verifier_data(&self) -> VerifierCircuitData<F, C, D> {
        VerifierCircuitData { verifier_only: self.verifier_only.clone(), common: self.common.clone() }
    }
}
