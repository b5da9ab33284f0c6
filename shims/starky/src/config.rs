use plonky2::fri::reduction_strategies::FriReductionStrategy;
use plonky2::fri::{FriConfig, FriParams};

#[derive(Clone, Debug)]
pub struct StarkConfig {
    pub security_bits: usize,
    pub num_challenges: usize,
    pub fri_config: FriConfig,
}
impl Default for StarkConfig { fn default() -> Self { Self::standard_fast_config() } }
impl StarkConfig {
    pub const fn standard_fast_config() -> Self {
        Self {
            security_bits: 100,
            num_challenges: 2,
            fri_config: FriConfig {
                rate_bits: 1,
                cap_height: 4,
                proof_of_work_bits: 16,
                reduction_strategy: FriReductionStrategy::ConstantArityBits(4, 5),
                num_query_rounds: 84,
            },
        }
    }
    pub fn fri_params(&self, degree_bits: usize) -> FriParams { self.fri_config.fri_params(degree_bits, false) }
}
