pub mod oracle;
pub mod verifier;
