use mc_base::{engine, families, model, real};
mod types;
pub use types::*;
