//! Stand-in for the `plonky2` fork mozak-vm depends on (unreachable in this sandbox).
//! Fields, hashing structure, Merkle trees, Fiat-Shamir and FRI are implemented for real;
//! Poseidon round constants are our own, and the PLONK prover is replaced by a circuit evaluator
//! that computes the witness and checks every constraint. See /verif/DESIGN.md.
#![allow(clippy::all, unused, dead_code, non_snake_case, incomplete_features)]

pub mod batch_fri;
pub mod field;
pub mod fri;
pub mod gadgets;
pub mod gates;
pub mod hash;
pub mod iop;
pub mod plonk;
pub mod recursion;
pub mod util;

/// Used by the `timed!` macro.
#[macro_export]
macro_rules! timed {
    ($timing_tree:expr, $level:expr, $ctx:expr, $exp:expr) => {{ let _ = &$ctx; $exp }};
    ($timing_tree:expr, $ctx:expr, $exp:expr) => {{ let _ = &$timing_tree; let _ = &$ctx; $exp }};
}
#[macro_export]
macro_rules! with_context {
    ($builder:expr, $level:expr, $ctx:expr, $exp:expr) => {{ $exp }};
    ($builder:expr, $ctx:expr, $exp:expr) => {{ $exp }};
}
