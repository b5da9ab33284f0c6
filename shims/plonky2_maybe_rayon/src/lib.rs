pub mod rayon { pub use ::rayon::*; }
pub use ::rayon::prelude::*;
pub use ::rayon::slice::{ParallelSlice, ParallelSliceMut};
pub use ::rayon::{join, current_num_threads};

