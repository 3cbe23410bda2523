#![recursion_limit = "256"]
#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_parens, clippy::all)]
#[macro_use]
pub mod shim;
pub mod spec;
pub mod ast;
pub mod engine;
pub mod props;
pub mod glue;
include!("zv_root.rs");

pub fn all() -> Vec<(&'static str, fn())> {
    glue::ALL.to_vec()
}
