//! Properties of raki's public decoder, checked against the oracle in `spec`.
//!
//! Every property is one generic function over [`src::Src`]. `proofs` runs it
//! under Kani with symbolic inputs; `bin/replay` runs the same function on the
//! values of a counterexample.

pub mod props;
pub mod spec;
pub mod src;
pub mod text;

#[cfg(kani)]
mod proofs;
