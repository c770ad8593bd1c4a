//! Everything the checks need that does not depend on the library under test:
//! the reference model of a Clifford algebra, exact coefficient rings, the
//! generators and the runner (sharding, shrinking, replay files, evidence).
pub mod gens;
pub mod jshrink;
pub mod model;
pub mod rings;
pub mod runner;
pub mod rustcx;

pub use model::{Alg, Mv};
pub use runner::{Check, Law, Outcome};
