use mc_base::{engine, families, model, real};
mod isolation;
pub use isolation::*;
