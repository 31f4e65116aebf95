//! /repo/consensus without its genesis data.
#[path = "repo/src/common.rs"]
pub mod common;
#[path = "repo/src/error.rs"]
pub mod error;
