//! Only makes cargo build the library: the checks of this crate are about programs that are
//! compiled against it, so that they still work when some signatures cannot be declared.
pub use tclifford;
