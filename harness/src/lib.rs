//! Harnesses: each `h_*` function states one property over symbolic inputs.
//! Compiled to LLVM IR for the solver, and natively by ../replay for replaying models.
#![allow(clippy::all)]
pub mod sym;
pub mod ty;
pub mod val;
pub mod text;
mod scale;
mod print;
mod big;
mod custom;
mod encode;
mod fields;
pub mod serial;
mod serde_h;
mod value_h;
