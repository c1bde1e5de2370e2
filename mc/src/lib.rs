//! Exhaustive explorer for the register machines whose transitions are calls into the crate under test.
//!
//! A *unit* is one machine: a finite, indexable set of start states (valuations of the operand registers), and the
//! transitions to take from each of them. Every state of every unit is visited, every transition is executed on the
//! real code, and each observation is compared with a reference model. Nothing is sampled.

pub mod cplx;
pub mod dict;
pub mod engine;
pub mod exact;
pub mod fx;
pub mod lattice;
pub mod ops;
pub mod prim;
pub mod tol;
pub mod val;

pub use engine::*;
