//! Affine points.
pub mod models {
    pub trait ModelParameters: Clone + 'static {
        type BaseField: Default + Clone;
        type ScalarField;
    }
    pub trait SWModelParameters: ModelParameters {}
}
pub use models::{ModelParameters, SWModelParameters};
pub mod short_weierstrass_jacobian {
    use super::*;
    #[derive(Clone)]
    pub struct GroupAffine<P: SWModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        pub infinity: bool,
    }
    impl<P: SWModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self {
            GroupAffine { x, y, infinity }
        }
    }
}
