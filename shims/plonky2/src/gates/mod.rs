pub mod gate {
    pub trait Gate { fn id(&self) -> String; fn num_constraints(&self) -> usize { 0 } }
    #[derive(Clone, Debug, Eq, PartialEq)]
    pub struct GateRef(pub String);
}
pub mod noop {
    #[derive(Clone, Copy, Debug)]
    pub struct NoopGate;
    impl super::gate::Gate for NoopGate { fn id(&self) -> String { "NoopGate".into() } }
}
