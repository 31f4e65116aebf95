//! Entry points for the analyser. Every `pub fn` is a root; nothing here is ever executed.
#![allow(dead_code, clippy::all)]
pub mod codec;
pub mod layout;
pub mod loose;
pub mod typed;
pub mod wide;
