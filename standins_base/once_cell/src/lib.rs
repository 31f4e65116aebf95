pub mod sync {
    pub use std::sync::OnceLock as OnceCell;
}
