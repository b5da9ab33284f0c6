use crate::field::extension::Extendable;
use crate::fri::proof::{FriProof, FriProofTarget};
use crate::hash::hash_types::RichField;
use crate::iop::witness::WitnessWrite;
use crate::plonk::config::AlgebraicHasher;

pub fn set_fri_proof_target<F, W, H, const D: usize>(witness: &mut W, t: &FriProofTarget<D>, p: &FriProof<F, H, D>)
where
    F: RichField + Extendable<D>,
    W: WitnessWrite<F> + ?Sized,
    H: AlgebraicHasher<F>, {
    witness.set_target(t.pow_witness, p.pow_witness);
    assert_eq!(t.final_poly.0.len(), p.final_poly.coeffs.len());
    for (&a, &b) in t.final_poly.0.iter().zip(&p.final_poly.coeffs) { witness.set_extension_target(a, b); }
    assert_eq!(t.commit_phase_merkle_caps.len(), p.commit_phase_merkle_caps.len());
    for (a, b) in t.commit_phase_merkle_caps.iter().zip(&p.commit_phase_merkle_caps) { witness.set_cap_target(a, b); }
    assert_eq!(t.query_round_proofs.len(), p.query_round_proofs.len());
    for (qt, q) in t.query_round_proofs.iter().zip(&p.query_round_proofs) {
        assert_eq!(qt.initial_trees_proof.evals_proofs.len(), q.initial_trees_proof.evals_proofs.len());
        for (at, a) in qt.initial_trees_proof.evals_proofs.iter().zip(&q.initial_trees_proof.evals_proofs) {
            assert_eq!(at.0.len(), a.0.len());
            for (&x, &y) in at.0.iter().zip(&a.0) { witness.set_target(x, y); }
            assert_eq!(at.1.siblings.len(), a.1.siblings.len());
            for (&x, &y) in at.1.siblings.iter().zip(&a.1.siblings) { witness.set_hash_target(x, y); }
        }
        assert_eq!(qt.steps.len(), q.steps.len());
        for (st, s) in qt.steps.iter().zip(&q.steps) {
            assert_eq!(st.evals.len(), s.evals.len());
            for (&x, &y) in st.evals.iter().zip(&s.evals) { witness.set_extension_target(x, y); }
            assert_eq!(st.merkle_proof.siblings.len(), s.merkle_proof.siblings.len());
            for (&x, &y) in st.merkle_proof.siblings.iter().zip(&s.merkle_proof.siblings) { witness.set_hash_target(x, y); }
        }
    }
}
