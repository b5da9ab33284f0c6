use serde::{Deserialize, Serialize};
use crate::iop::ext_target::ExtensionTarget;
/// A location in the witness.
#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash, Serialize, Deserialize)]
pub enum Target {
    VirtualTarget { index: usize },
}
impl Default for Target { fn default() -> Self { Self::VirtualTarget { index: 0 } } }
impl Target {
    pub fn idx(&self) -> usize { let Target::VirtualTarget { index } = self; *index }
    pub fn to_ext_target<const D: usize>(self, zero: Target) -> ExtensionTarget<D> {
        let mut arr = [zero; D];
        arr[0] = self;
        ExtensionTarget(arr)
    }
}
#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash, Default, Serialize, Deserialize)]
#[allow(clippy::manual_non_exhaustive)]
pub struct BoolTarget {
    pub target: Target,
    pub(crate) _private: (),
}
impl BoolTarget {
    pub fn new_unsafe(target: Target) -> BoolTarget { BoolTarget { target, _private: () } }
}
