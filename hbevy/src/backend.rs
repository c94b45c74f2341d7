//! The types of the bevy extension, under the names the shared drivers use.
use crate::curved::{by_id, code, fix, FS};
use crate::tm::project_with;
use serde_json::{json, Value};
pub use procedural_modelling::extensions::bevy::*;
use procedural_modelling::prelude::*;
pub type Sc = f32;
pub type I = u32;
pub type M3 = BevyMesh3d;
pub type T3 = BevyMeshType3d32;
pub type VP3 = BevyVertexPayload3d;
pub type V3 = bevy::math::Vec3;
pub type V2 = bevy::math::Vec2;
pub type A3 = bevy::transform::components::Transform;
pub type R3 = bevy::math::Quat;
pub type Poly = Polygon2dBevy;
pub type M2 = BevyMesh2d;
pub type T2 = BevyMeshType2d32;
pub type VP2 = BevyVertexPayload2d;
pub type A2 = bevy::math::Affine2;
/// The scalars with vectors.
pub trait ScalarPlus: Scalar {
    type V2: Vector2D<S = Self>;
    type V3: Vector3D<S = Self>;
    type P: Polygon<Self::V2>;
}
impl ScalarPlus for f32 {
    type V2 = V2;
    type V3 = V3;
    type P = Polygon2dBevy;
}
pub type GVec2<S> = <S as ScalarPlus>::V2;
pub type GVec3<S> = <S as ScalarPlus>::V3;
pub type GPoly<S> = <S as ScalarPlus>::P;
pub fn v3(x: f64, y: f64, z: f64) -> V3 {
    V3::new(x as f32, y as f32, z as f32)
}
pub fn v2(x: f64, y: f64) -> V2 {
    V2::new(x as f32, y as f32)
}
/// Conversion from the plane to space.
pub fn to_d(_: usize) -> usize {
    3
}
pub fn lifted(a: &M2, _: usize, tol: f64) -> (Value, Value) {
    let b = a.to_3d(tol as f32);
    let s = project_with::<T3>(&b, |_| 0, |v| code(v.pos().x as f64, v.pos().y as f64), |_| 0);
    (s, by_id(b.vertices().map(|v| (v.id(), json!(v.payload().pos().to_array().map(|x| fix(x as f64, FS))))), json!([0, 0, 0])))
}
#[macro_export]
macro_rules! precision {
    ($single:expr, $f:ident ( $($a:expr),* )) => {{ let _ = $single; $f::<f32>($($a),*) }};
}
