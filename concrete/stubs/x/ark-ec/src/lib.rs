//! stand-in for ark_ec: affine points are their coordinates
pub mod models { pub trait ModelParameters { type BaseField: Copy + Default; type ScalarField: Copy; } }
pub use models::ModelParameters;
pub trait SWModelParameters: ModelParameters {}
pub mod short_weierstrass_jacobian {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct GroupAffine<P: SWModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub infinity: bool }
    impl<P: SWModelParameters> GroupAffine<P> { pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self { Self { x, y, infinity } } }
}
