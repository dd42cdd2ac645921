//! What the crates of the checker share: the exploring engine, the model, and the binding to the real code.
pub mod engine;
pub mod families;
pub mod model;
pub mod real;
