//! What the shared drivers build on: here nalgebra, in hbevy the types of the bevy extension.
use crate::curved::{by_id, code, fix, FS};
use crate::tm::project_with;
pub use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};
/// The scalar and the index of the meshes.
pub type Sc = f64;
pub type I = usize;
pub type M3 = Mesh3d64;
pub type T3 = MeshType3d64PNU;
pub type VP3 = VertexPayloadPNU<f64, 3>;
pub type V3 = VecN<f64, 3>;
pub type V2 = VecN<f64, 2>;
pub type A3 = NdAffine<f64, 3>;
pub type R3 = NdRotate<f64, 3>;
pub type Poly = Polygon2d<f64>;
/// Meshes in the plane, with curves.
pub type M2 = Mesh2d64Curved;
pub type T2 = MeshType2d64PNUCurved;
pub type VP2 = VertexPayloadPNU<f64, 2>;
pub type A2 = NdAffine<f64, 2>;
/// Vectors over any of the scalars.
pub type GVec2<S> = VecN<S, 2>;
pub type GVec3<S> = VecN<S, 3>;
pub type GPoly<S> = Polygon2d<S>;
pub fn v3(x: f64, y: f64, z: f64) -> V3 {
    V3::new(x, y, z)
}
pub fn v2(x: f64, y: f64) -> V2 {
    V2::new(x, y)
}
/// Conversion from the plane to d dimensions.
pub fn to_d(d: usize) -> usize {
    d
}
pub fn lifted(a: &M2, d: usize, tol: f64) -> (Value, Value) {
    fn go<const D: usize>(a: &M2, tol: f64) -> (Value, Value) {
        let b = a.to_nd::<D>(tol);
        let s = project_with::<MeshTypeNd64PNU<D>>(&b, |_| 0, |v| code(v.pos()[0], v.pos()[1]), |_| 0);
        (s, by_id(b.vertices().map(|v| (v.id(), json!(v.payload().pos().iter().map(|x| fix(*x, FS)).collect::<Vec<_>>()))), json!(vec![0; D])))
    }
    match d {
        2 => go::<2>(a, tol),
        3 => go::<3>(a, tol),
        4 => go::<4>(a, tol),
        _ => go::<7>(a, tol),
    }
}
/// A number of either precision the vectors come in.
#[macro_export]
macro_rules! precision {
    ($single:expr, $f:ident ( $($a:expr),* )) => { if $single { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) } };
}
