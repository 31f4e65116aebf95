//! Entry points for the analyser. Every `pub fn` is a root; nothing here is ever executed.
#![allow(dead_code, clippy::all)]
pub mod fork;
pub mod merkle;
pub mod ledger;
pub mod tree;
