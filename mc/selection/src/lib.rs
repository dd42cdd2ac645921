use mc_base::{engine, families, model, real};
mod selection;
pub use selection::*;
