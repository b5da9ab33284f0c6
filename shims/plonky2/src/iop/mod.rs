pub mod challenger;
pub mod ext_target;
pub mod generator { }
pub mod target;
pub mod wire { }
pub mod witness;
