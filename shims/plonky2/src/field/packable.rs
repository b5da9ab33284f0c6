use crate::field::packed::PackedField;
use crate::field::types::Field;
pub trait Packable: Field {
    type Packing: PackedField<Scalar = Self>;
}
impl<F: Field> Packable for F {
    type Packing = Self;
}
