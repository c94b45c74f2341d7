//! What is handed to the renderer, and meshes taken over from the nalgebra backend.
use crate::backend::*;
use crate::plane::fi;
use crate::geo::FRAMES;
use crate::scene::{add, lift, p3, poly};
use crate::tm::project_with;
use crate::util::*;
use bevy::asset::RenderAssetUsages;
use bevy::mesh::{Indices, Mesh as Render, PrimitiveTopology, VertexAttributeValues};
use procedural_modelling::extensions::nalgebra as na;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

/// Mesh types with the vertices of the bevy backend, but other ids.
macro_rules! width {
    ($t:ident, $i:ty) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
        pub struct $t;
        impl MeshType for $t {
            type E = u32;
            type V = $i;
            type F = u16;
            type EP = EmptyEdgePayload<Self>;
            type VP = VP3;
            type FP = EmptyFacePayload<Self>;
            type MP = EmptyMeshPayload<Self>;
            type Mesh = HalfEdgeMeshImpl<$t>;
            type Face = HalfEdgeFaceImpl<Self>;
            type Edge = HalfEdgeImpl<Self>;
            type Vertex = HalfEdgeVertexImpl<Self>;
        }
        impl EuclideanMeshType<3> for $t {
            type S = f32;
            type Vec = V3;
            type Vec2 = V2;
            type Trans = A3;
            type Rot = R3;
            type Poly = Poly;
        }
        impl HalfEdgeImplMeshType for $t {}
        impl MeshTypeHalfEdge for $t {}
        impl MeshType3D for $t {}
    };
}
width!(W8, u8);
width!(W16, u16);

fn tri(v: &V3, k: f64) -> [i64; 3] {
    [0, 1, 2].map(|c| fi(v[c] as f64, k))
}
fn failed(v: &mut Value, e: String) {
    v["st"] = "panic".into();
    v["msg"] = e.chars().take(160).collect::<String>().into()
}
/// A render mesh as the specification sees it.
fn shown(m: &Render) -> Value {
    let mut names: Vec<&str> = m.attributes().map(|(a, _)| a.name).collect();
    names.sort();
    let floats = |a: Option<&VertexAttributeValues>, k: f64| match a {
        Some(VertexAttributeValues::Float32x3(x)) => x.iter().map(|p| p.map(|c| fi(c as f64, k))).collect(),
        _ => vec![],
    };
    let (kind, idx): (&str, Vec<i64>) = match m.indices() {
        None => ("none", vec![]),
        Some(Indices::U16(x)) => ("u16", x.iter().map(|i| *i as i64).collect()),
        Some(Indices::U32(x)) => ("u32", x.iter().map(|i| *i as i64).collect()),
    };
    json!({"names": names, "kind": kind, "is": idx, "X": floats(m.attribute(Render::ATTRIBUTE_POSITION), 1000.0), "N": floats(m.attribute(Render::ATTRIBUTE_NORMAL), 1.0e5),
        "topo": format!("{:?}", m.primitive_topology()), "usage": m.asset_usage.bits()})
}
/// A render mesh that already shows something else.
fn stale(rng: &mut Rng, usage: RenderAssetUsages) -> Render {
    let mut m = Render::new(PrimitiveTopology::TriangleList, usage);
    let n = rng.below(9);
    let three = vec![[7.0f32, 8.0, 9.0]; n];
    if rng.chance(2, 3) { m.insert_attribute(Render::ATTRIBUTE_POSITION, three.clone()) }
    if rng.chance(1, 2) { m.insert_attribute(Render::ATTRIBUTE_NORMAL, three) }
    if rng.chance(1, 2) { m.insert_attribute(Render::ATTRIBUTE_UV_0, vec![[1.0f32, 2.0]; n]) }
    if rng.chance(1, 3) { m.insert_attribute(Render::ATTRIBUTE_COLOR, vec![[1.0f32, 0.0, 0.5, 1.0]; n]) }
    if rng.chance(1, 3) { m.insert_attribute(Render::ATTRIBUTE_TANGENT, vec![[1.0f32, 0.0, 0.5, 1.0]; n]) }
    match rng.below(3) {
        0 => m.insert_indices(Indices::U16(vec![0, 1, 2, 3])),
        1 => m.insert_indices(Indices::U32(vec![2, 1, 0])),
        _ => {}
    }
    m
}
macro_rules! show {
    ($rng:expr, $m:expr, $bytes:literal) => {{
        let (rng, m): (&mut Rng, _) = ($rng, $m);
        let k = *rng.pick(&["set", "set", "set_ex", "set_ex", "to", "to_ex"]);
        let ex = k.ends_with("ex");
        let mut name = if ex { *rng.pick(&["Auto", "Fan", "EarClipping", "MinWeight", "Sweep", "SweepDynamic", "SweepDelaunay", "Delaunay"]) } else { "Auto" };
        // a fan is for convex faces
        if name == "Fan" && !m.faces().all(|f| f.is_convex(m)) {
            name = "Auto"
        }
        let flat = ex && rng.chance(1, 2);
        let usage = if rng.chance(1, 2) { RenderAssetUsages::MAIN_WORLD } else { RenderAssetUsages::default() };
        let alg = crate::geo::alg(name);
        let was = stale(rng, usage);
        let mut ev = json!({"op": "show", "k": k, "bytes": $bytes, "flat": flat, "st": "ok", "usage": usage.bits(), "was": shown(&was), "is": [], "X": [], "N": [], "r": {}, "r2": {}});
        let r = guard(&ev, || {
            let mut meta = TesselationMeta::default();
            let (i, v) = if flat { m.triangulate_and_generate_flat_normals_post(alg, &mut meta) } else { m.triangulate(alg, &mut meta) };
            let mut r = was;
            let again = |r: &mut Render| match k {
                "set" => m.bevy_set(r),
                "set_ex" => m.bevy_set_ex(r, alg, flat, &mut TesselationMeta::default()),
                "to" => *r = m.to_bevy(usage),
                _ => *r = m.to_bevy_ex(usage, alg, flat),
            };
            again(&mut r);
            let one = shown(&r);
            again(&mut r);
            (i.iter().map(|x| x.index() as i64).collect::<Vec<_>>(), v.iter().map(|v| tri(v.pos(), 1000.0)).collect::<Vec<_>>(), v.iter().map(|v| tri(v.normal(), 1.0e5)).collect::<Vec<_>>(), one, shown(&r))
        });
        match r {
            Ok((i, x, n, r, r2)) => {
                ev["is"] = json!(i);
                ev["X"] = json!(x);
                ev["N"] = json!(n);
                ev["r"] = r;
                ev["r2"] = r2;
            }
            Err(e) => failed(&mut ev, e),
        }
        emit(&ev);
    }};
}
/// The places, normals and texture coordinates of all vertices by their ids, and the links.
macro_rules! whole {
    ($t:ty, $m:expr) => {{
        let m = $m;
        let s = project_with::<$t>(m, |_| 0, |_| 0, |_| 0);
        let y = crate::curved::by_id(m.vertices().map(|v| {
            let p = v.payload();
            let f = |x: f64| fi(x, 1000.0);
            let x = [0, 1, 2].map(|c| f(p.pos()[c] as f64));
            let n = [0, 1, 2].map(|c| f(p.normal()[c] as f64));
            (v.id(), json!([x, n, [f(p.uv()[0] as f64), f(p.uv()[1] as f64), 0]]))
        }), json!([[0, 0, 0], [0, 0, 0], [0, 0, 0]]));
        (s, y)
    }};
}
/// A few polygons, prisms and pyramids, of any mesh type; `v` makes a vertex, `u` a vector.
macro_rules! grow {
    ($rng:expr, $t:ty, $s:ty, $v:expr, $u:expr) => {
        grow!($rng, $t, $s, $v, $u, 4)
    };
    ($rng:expr, $t:ty, $s:ty, $v:expr, $u:expr, $most:expr) => {{
        let rng: &mut Rng = $rng;
        let mut m: <$t as MeshType>::Mesh = Default::default();
        for _ in 0..rng.below($most) {
            let p = poly(rng, 6);
            let f = rng.below(FRAMES.len());
            let x = lift(&p, f, p3(rng, 4));
            let f = FRAMES[f];
            let up = |d: [i64; 3]| (0..3).map(|i| (f[0][(i + 1) % 3] * f[1][(i + 2) % 3] - f[0][(i + 2) % 3] * f[1][(i + 1) % 3]) * d[i]).sum::<i64>();
            let e = m.insert_polygon(x.iter().map(|q| $v(*q)));
            let e = if m.edge(e).is_boundary_self() { e } else { m.edge(e).twin(&m).id() };
            match rng.below(3) {
                0 => {}
                1 => {
                    let mut d = p3(rng, 3);
                    while up(d) == 0 {
                        d = p3(rng, 3)
                    }
                    m.extrude(e, <<$t as EuclideanMeshType<3>>::Trans as TransformTrait<$s, 3>>::from_translation($u(d)));
                }
                _ => {
                    m.fill_hole_apex(e, $v(add(x[0], p3(rng, 3))));
                }
            }
        }
        m
    }};
}
fn taken(rng: &mut Rng) {
    let u = |q: [i64; 3]| na::Vec3::new(q[0] as f64, q[1] as f64, q[2] as f64);
    let mut a = grow!(rng, na::MeshType3d64PNU, f64, |q| na::VertexPayloadPNU::from_pos(u(q)), u);
    let mut k = 0;
    let n: Vec<_> = (0..a.num_vertices()).map(|_| p3(rng, 9)).collect();
    a.vertices_mut().for_each(|v| {
        let n = n[k];
        k += 1;
        v.payload_mut().set_normal(na::Vec3::new(n[0] as f64 / 4.0, n[1] as f64 / 4.0, n[2] as f64 / 4.0));
        v.payload_mut().set_uv(na::Vec2::new(k as f64, n[0] as f64 / 2.0));
    });
    let fs: Vec<usize> = a.face_ids().collect();
    for f in fs {
        if rng.chance(1, 4) {
            a.remove_face(f);
        }
    }
    let (s, x) = whole!(na::MeshType3d64PNU, &a);
    let mut ev = json!({"op": "taken", "st": "ok", "m": s, "x": x, "b": {}, "y": [], "same": true});
    match guard(&ev, || {
        let b = M3::from(&a);
        let (s2, y) = whole!(T3, &b);
        (s2, y, whole!(na::MeshType3d64PNU, &a) == (s.clone(), x.clone()))
    }) {
        Ok((b, y, same)) => {
            ev["b"] = b;
            ev["y"] = y;
            ev["same"] = same.into();
        }
        Err(e) => failed(&mut ev, e),
    }
    emit(&ev);
}
pub fn run(rng: &mut Rng, runs: usize) {
    for i in 0..runs {
        // now and then so many vertices that their ids do not fit into eight bits
        let most = if i % 25 == 24 { 90 } else { 4 };
        let k = *rng.pick(&[1.0, 0.125]);
        let c = p3(rng, 4);
        let u = |q: [i64; 3]| v3(q[0] as f64 * k, q[1] as f64 * k, q[2] as f64 * k);
        let v = |q| { let mut v = VP3::from_pos(u(q)); v.set_normal(u(add(q, c))); v };
        let mut m = grow!(rng, T3, f32, v, u, most);
        if rng.chance(1, 3) {
            m.generate_smooth_normals();
        }
        show!(rng, &m, 4);
        if most > 4 || rng.chance(1, 2) {
            let a = grow!(rng, W16, f32, v, u, most);
            show!(rng, &a, 2);
        }
        if rng.chance(1, 2) {
            let a = grow!(rng, W8, f32, v, u);
            show!(rng, &a, 1);
        }
        taken(rng);
    }
}
