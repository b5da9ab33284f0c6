//! Stand-in for the `starky` crate of the plonky2 fork mozak-vm depends on.
#![allow(clippy::all)]
pub mod config;
pub mod constraint_consumer;
pub mod evaluation_frame;
pub mod prover;
pub mod stark;
pub mod stark_testing;
pub mod verifier;
