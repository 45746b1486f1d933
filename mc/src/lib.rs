//! Engine, reference model, and uniform access to the library under test.
pub mod engine;
pub mod fam;
pub mod ix;
pub mod json;
pub mod model;
pub mod ops;
pub mod probe;
pub mod sched;
pub mod user;
pub mod word;
