use mc_base::{engine, families, model, real};
pub mod lifetime;
pub mod matching;
pub mod store;
