use serde::Serialize;
#[derive(Debug, Clone, Eq, PartialEq, Serialize)]
pub enum FriReductionStrategy {
    Fixed(Vec<usize>),
    ConstantArityBits(usize, usize),
    MinSize(Option<usize>),
}
impl FriReductionStrategy {
    pub fn reduction_arity_bits(&self, mut degree_bits: usize, rate_bits: usize, cap_height: usize, _num_queries: usize) -> Vec<usize> {
        match self {
            Self::Fixed(v) => v.to_vec(),
            &Self::ConstantArityBits(arity_bits, final_poly_bits) => {
                let mut result = Vec::new();
                while degree_bits > final_poly_bits && degree_bits + rate_bits - arity_bits >= cap_height {
                    result.push(arity_bits);
                    assert!(degree_bits >= arity_bits);
                    degree_bits -= arity_bits;
                }
                result
            }
            Self::MinSize(_) => vec![],
        }
    }
}
