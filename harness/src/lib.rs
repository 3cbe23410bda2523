#![recursion_limit = "256"]
//! Contract harnesses for rust-zserio.  One source, two builds:
//!  * /verif/harness_kani   - every harness is a Kani proof; `any()` is a symbolic
//!    value, the bit reader/writer are the contract stand-ins of /verif/models;
//!  * /verif/harness_native - the same functions run on concrete values with the
//!    real dependencies (replay of counterexamples, search for failing inputs).
#![allow(dead_code, unused_imports, clippy::all)]
#[macro_use]
pub mod shim;
pub mod spec;
#[macro_use]
pub mod kinds;
pub mod runtime;

pub fn all() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = Vec::new();
    for l in runtime::GROUPS {
        v.extend_from_slice(l);
    }
    v
}
