//! Roots for the analysis: each `root_*` function uses the public API of rstar the way a client would,
//! with opaque types.  Nothing in here is ever run.
#![allow(dead_code, deprecated, unused_imports)]
pub mod models;
pub mod opq;
pub mod roots_params;
pub mod roots_tree;
pub mod roots_geo;
pub mod roots_wrap;
pub use models::*;
