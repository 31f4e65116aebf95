//! Entry points of the analysis of the chain's own types. Every `pub fn` is a root; nothing here is ever executed.
#![allow(dead_code, clippy::all)]
pub mod input;
pub mod text;
pub mod verify;
