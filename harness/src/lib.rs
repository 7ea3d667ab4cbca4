//! Roots for the verification-condition generator (see /verif/DESIGN.md).
#![allow(clippy::all)]
pub mod r;
pub use r::R;
#[allow(unused_imports)]
pub mod roots;
