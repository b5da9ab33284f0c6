use crate::field::extension::{Extendable, QuadraticExtension};
use crate::field::goldilocks_field::GoldilocksField;

impl Extendable<2> for GoldilocksField {
    type Extension = QuadraticExtension<Self>;

    const DTH_ROOT: Self = Self(18446744069414584320);
    const EXT_MULTIPLICATIVE_GROUP_GENERATOR: [Self; 2] = [Self(18081566051660590251), Self(16121475356294670766)];
    const EXT_POWER_OF_TWO_GENERATOR: [Self; 2] = [Self(0), Self(7226896044987257365)];
    const W: Self = Self(7);
}
