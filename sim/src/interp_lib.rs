//! The simulator as a library, for the interpreter (see miri/).
#![allow(dead_code)]
pub mod alloc;
mod combos;
mod driver;
mod elems;
pub mod free;
mod gen;
pub mod interp;
mod kind;
mod machine;
mod rng;
mod scenario;
mod sched;
mod sys;
mod world;
