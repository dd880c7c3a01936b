//! Explicit-state exploration of the real vecmat code: engine, scalars, alphabets.
#![allow(clippy::all)]
pub mod cont;
pub mod engine;
pub mod floats;
pub mod scalars;
pub mod tok;
pub use engine::*;
