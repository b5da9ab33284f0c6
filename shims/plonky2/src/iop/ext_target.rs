use crate::field::extension::{Extendable, FieldExtension, OEF};
use crate::hash::hash_types::RichField;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct ExtensionTarget<const D: usize>(pub [Target; D]);
impl<const D: usize> Default for ExtensionTarget<D> { fn default() -> Self { Self([Target::default(); D]) } }
impl<const D: usize> ExtensionTarget<D> {
    pub const fn to_target_array(&self) -> [Target; D] { self.0 }
}
impl<const D: usize> TryFrom<Vec<Target>> for ExtensionTarget<D> {
    type Error = Vec<Target>;
    fn try_from(value: Vec<Target>) -> Result<Self, Self::Error> { Ok(Self(value.try_into()?)) }
}
pub fn flatten_target<const D: usize>(l: &[ExtensionTarget<D>]) -> Vec<Target> { l.iter().flat_map(|x| x.0.to_vec()).collect() }
pub fn unflatten_target<const D: usize>(l: &[Target]) -> Vec<ExtensionTarget<D>> {
    l.chunks_exact(D).map(|c| ExtensionTarget(c.to_vec().try_into().unwrap())).collect()
}
