use mc_base::{engine, families, model, real};
pub mod display;
pub mod layers;
pub mod parts;
pub mod resolvers;
pub mod tokens;
