//! Affine maps, and meshes, payloads and vectors moved by them.
use crate::util::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

const BAD: i64 = -999_999_999;
/// A float that must be an integer, up to rounding errors.
fn near(x: f64) -> i64 {
    if x.is_finite() && x.abs() < 9.0e8 && (x - x.round()).abs() < 1e-5 { x.round() as i64 } else { BAD }
}
fn milli(x: f64) -> i64 {
    crate::plane::fi(x, 1000.0)
}
fn vec<S: ScalarPlus, const D: usize>(v: &[i64]) -> VecN<S, D> {
    let mut a = [S::ZERO; D];
    (0..D).for_each(|i| a[i] = S::from(v[i] as f32));
    VecN::<S, D>::from(a)
}
fn ints<S: ScalarPlus, const D: usize>(v: &VecN<S, D>, f: fn(f64) -> i64) -> Vec<i64> {
    (0..D).map(|i| f(v[i].to_f64())).collect()
}
fn unit<S: ScalarPlus, const D: usize>(k: usize) -> VecN<S, D> {
    let mut v = [0; D];
    v[k] = 1;
    vec(&v)
}
#[derive(Clone)]
struct Map {
    m: Vec<Vec<i64>>,
    t: Vec<i64>,
}
impl Map {
    fn js(&self) -> Value {
        json!({"m": self.m, "t": self.t})
    }
    fn mat<const D: usize, S: ScalarPlus>(&self) -> nalgebra::SMatrix<S, D, D> {
        nalgebra::SMatrix::<S, D, D>::from_fn(|i, j| S::from(self.m[i][j] as f32))
    }
    fn nd<const D: usize, S: ScalarPlus>(&self) -> NdAffine<S, D> {
        NdAffine::new(self.mat(), vec::<S, D>(&self.t))
    }
    fn one(d: usize) -> Map {
        Map { m: (0..d).map(|i| (0..d).map(|j| (i == j) as i64).collect()).collect(), t: vec![0; d] }
    }
}
/// What a map does, by its images of the origin and the unit vectors.
fn seen<const D: usize, S: ScalarPlus>(a: &NdAffine<S, D>, f: fn(f64) -> i64) -> Value {
    let z = VecN::<S, D>::zeros();
    let o = a.apply(z);
    let cols: Vec<Vec<i64>> = (0..D).map(|k| ints(&(a.apply(unit::<S, D>(k)) - o), f)).collect();
    let vols: Vec<Vec<i64>> = (0..D).map(|k| ints(&a.apply_vec(unit::<S, D>(k)), f)).collect();
    let rows = |c: &Vec<Vec<i64>>| -> Vec<Vec<i64>> { (0..D).map(|i| (0..D).map(|j| c[j][i]).collect()).collect() };
    json!({"m": rows(&cols), "t": ints(&o, near), "vm": rows(&vols)})
}
fn small(rng: &mut Rng, d: usize, m: i64) -> Vec<i64> {
    (0..d).map(|_| rng.range(-m, m)).collect()
}
fn any_map(rng: &mut Rng, d: usize) -> Map {
    Map { m: (0..d).map(|_| small(rng, d, 3)).collect(), t: small(rng, d, 9) }
}
/// A rotation with integer entries.
fn turn(rng: &mut Rng, d: usize) -> Vec<Vec<i64>> {
    let mut p: Vec<usize> = (0..d).collect();
    let mut sign = 1;
    for i in (1..d).rev() {
        let j = rng.below(i + 1);
        if i != j { sign = -sign }
        p.swap(i, j)
    }
    let mut m = vec![vec![0; d]; d];
    for i in 0..d {
        let s = if i + 1 == d { sign } else if rng.chance(1, 2) { -1 } else { 1 };
        sign *= s;
        m[i][p[i]] = s;
    }
    m
}
fn finish(mut v: Value, r: Result<Value, String>) {
    match r {
        Ok(r) => r.as_object().unwrap().iter().for_each(|(k, x)| v[k] = x.clone()),
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.chars().take(160).collect::<String>().into()
        }
    }
    emit(&v);
}
const ANGLES: [[i64; 3]; 10] = [[1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1], [3, 4, 5], [-3, 4, 5], [4, -3, 5], [5, 12, 13], [-12, -5, 13], [24, 7, 25]];
const AXES: [[i64; 3]; 7] = [[1, 0, 0], [0, 1, 0], [0, 0, -1], [1, 2, 2], [-2, 1, 2], [2, 3, 6], [-2, -2, 1]];
fn make<const D: usize, S: ScalarPlus>(rng: &mut Rng) {
    let k = *rng.pick(&["identity", "translation", "scale", "rotation", "affine", "arc", "arc", "angle", "axis"]);
    if k == "arc" && D > 3 || k == "angle" && D != 2 || k == "axis" && D != 3 {
        return;
    }
    let a: Vec<Vec<i64>> = match k {
        "identity" => vec![],
        "rotation" => turn(rng, D),
        "affine" => { let mut m = any_map(rng, D); m.m.push(m.t.clone()); m.m }
        "arc" => {
            let pick = |rng: &mut Rng| loop { let v = small(rng, D, 4); if v.iter().any(|x| *x != 0) { return v; } };
            let x = pick(rng);
            let y = match rng.below(5) { 0 => x.iter().map(|c| -c).collect(), 1 => x.iter().map(|c| 2 * c).collect(), _ => pick(rng) };
            vec![x, y]
        }
        "angle" => vec![rng.pick(&ANGLES).to_vec()],
        "axis" => vec![rng.pick(&AXES).to_vec(), rng.pick(&ANGLES).to_vec()],
        _ => vec![small(rng, D, 9)],
    };
    let v = json!({"op": "make", "k": k, "d": D, "a": a, "st": "ok", "r": {}});
    let r = guard(&v, || {
        let t: NdAffine<S, D> = match k {
            "identity" => NdAffine::identity(),
            "translation" => NdAffine::from_translation(vec(&a[0])),
            "scale" => NdAffine::from_scale(vec(&a[0])),
            "rotation" => NdAffine::from_rotation(NdRotate::new(Map { m: a.clone(), t: vec![] }.mat())),
            "affine" => Map { m: a[..D].to_vec(), t: a[D].clone() }.nd(),
            "arc" => NdAffine::from_rotation_arc(vec(&a[0]), vec(&a[1])),
            "angle" => NdAffine::from_rotation(NdRotate::from_angle(S::from((a[0][1] as f32).atan2(a[0][0] as f32)))),
            _ => NdAffine::from_rotation(NdRotate::from_axis_angle(
                nalgebra::Unit::new_normalize(vec::<S, 3>(&a[0])),
                S::from((a[1][1] as f32).atan2(a[1][0] as f32)),
            )),
        };
        json!({"r": seen(&t, milli)})
    });
    finish(v, r);
}
fn step<const D: usize, S: ScalarPlus>(a: &Map, k: &str, x: &[i64], b: &Map) {
    let v = json!({"op": "step", "k": k, "A": a.js(), "v": x, "B": b.js(), "st": "ok", "r": {}});
    let r = guard(&v, || {
        let t: NdAffine<S, D> = a.nd();
        let t = match k { "translate" => t.with_translation(vec(x)), "scale" => t.with_scale(vec(x)), _ => t.chain(&b.nd()) };
        json!({"r": seen(&t, near)})
    });
    finish(v, r);
}

/// Something with places, normals, uvs and curves.
type W = Value;
macro_rules! meshes {
    ($name:ident, $mesh:ty, $d:expr, $curves:expr, $vp:expr) => {
        fn $name(rng: &mut Rng, k: &str, x: &[i64], a: &Map, shape: usize) {
            const D: usize = $d;
            let vp = $vp;
            let mut m = <$mesh>::new();
            // a few different connections
            let n = 3 + shape % 3;
            let mut pts: Vec<Vec<i64>> = (0..n + 2).map(|_| small(rng, D, 9)).collect();
            pts[0] = vec![0; D];
            m.insert_polygon(pts[..n].iter().map(|p| vp(p)));
            if shape % 2 == 1 { m.add_vertex(vp(&pts[n])); }
            if shape % 4 >= 2 { m.add_isolated_edge_default(vp(&pts[n]), vp(&pts[n + 1])); }
            m.vertices_mut().enumerate().for_each(|(i, v)| {
                let q: Vec<i64> = (0..D as i64).map(|c| (i as i64 * 3 + c * 5) % 7 - 3).collect();
                v.payload_mut().set_normal(vec::<f64, D>(&q));
                v.payload_mut().set_uv(VecN::<f64, 2>::new(i as f64, 7.0));
            });
            $curves(&mut m, rng);
            let curves = |m: &$mesh| -> Vec<Vec<Vec<i64>>> { crate::affine::Curvy::curvy(m) };
            let w = |m: &$mesh| -> W {
                let xs: Vec<Vec<i64>> = m.vertices().map(|v| ints::<f64, D>(&v.pos(), near)).collect();
                let ns: Vec<Vec<i64>> = m.vertices().map(|v| { let n: &VecN<f64, D> = v.payload().normal(); ints::<f64, D>(n, near) }).collect();
                let us: Vec<Vec<i64>> = m.vertices().map(|v| { let u: &VecN<f64, 2> = v.payload().uv(); vec![near(u[0]), near(u[1])] }).collect();
                json!({"X": xs, "N": ns, "U": us, "C": curves(m)})
            };
            let links = |m: &$mesh| {
                let e: Vec<_> = m.edges().map(|h| (h.id(), h.next_id(), h.prev_id(), h.twin_id(), h.origin_id(), h.face_id())).collect();
                let f: Vec<_> = m.faces().map(|f| (f.id(), f.edge_id())).collect();
                let v: Vec<_> = m.vertices().map(|v| (v.id(), v.edge_id(m))).collect();
                format!("{e:?} {f:?} {v:?}")
            };
            let cp = rng.chance(1, 2);
            let v = json!({"op": "mesh", "k": k, "d": D, "v": x, "A": a.js(), "cp": cp, "w": w(&m), "w0": {}, "w2": {}, "same": true, "st": "ok"});
            let l = links(&m);
            let r = guard(&v, || {
                let r: $mesh = match (k, cp) {
                    ("transform", true) => TransformableMesh::transformed(&m, &a.nd::<D, f64>()),
                    ("transform", false) => TransformableMesh::transform(&mut m, &a.nd::<D, f64>()).clone(),
                    ("translate", true) => TransformableMesh::translated(&m, &vec(x)),
                    ("translate", false) => TransformableMesh::translate(&mut m, &vec(x)).clone(),
                    ("scale", true) => TransformableMesh::scaled(&m, &vec(x)),
                    ("scale", false) => TransformableMesh::scale(&mut m, &vec(x)).clone(),
                    (_, true) => TransformableMesh::rotated(&m, &NdRotate::new(a.mat())),
                    (_, false) => TransformableMesh::rotate(&mut m, &NdRotate::new(a.mat())).clone(),
                };
                json!({"w2": w(&r), "w0": w(&m), "same": links(&r) == l && links(&m) == l})
            });
            finish(v, r);
        }
    };
}
/// The control points of the curved edges.
trait Curvy {
    fn curvy(&self) -> Vec<Vec<Vec<i64>>>;
}
impl<const D: usize> Curvy for MeshNd64<D> {
    fn curvy(&self) -> Vec<Vec<Vec<i64>>> {
        vec![]
    }
}
impl Curvy for Mesh2d64Curved {
    fn curvy(&self) -> Vec<Vec<Vec<i64>>> {
        self.edges()
            .map(|e| match e.curve_type() {
                CurvedEdgeType::Linear => vec![],
                CurvedEdgeType::QuadraticBezier(c) => vec![ints::<f64, 2>(&c, near)],
                CurvedEdgeType::CubicBezier(c, d) => vec![ints::<f64, 2>(&c, near), ints::<f64, 2>(&d, near)],
            })
            .collect()
    }
}
fn pnu<const D: usize>(p: &Vec<i64>) -> VertexPayloadPNU<f64, D> {
    VertexPayloadPNU::from_pos(vec(p))
}
meshes!(mesh2, Mesh2d64, 2, |_: &mut Mesh2d64, _: &mut Rng| {}, |p: &Vec<i64>| pnu::<2>(p));
meshes!(mesh3, Mesh3d64, 3, |_: &mut Mesh3d64, _: &mut Rng| {}, |p: &Vec<i64>| pnu::<3>(p));
meshes!(mesh4, Mesh4d64, 4, |_: &mut Mesh4d64, _: &mut Rng| {}, |p: &Vec<i64>| pnu::<4>(p));
meshes!(
    curved,
    Mesh2d64Curved,
    2,
    |m: &mut Mesh2d64Curved, rng: &mut Rng| {
        let ids: Vec<usize> = m.edges().map(|e| e.id()).collect();
        for e in ids {
            let (c, d) = (vec::<f64, 2>(&small(rng, 2, 9)), vec::<f64, 2>(&small(rng, 2, 9)));
            match rng.below(3) {
                0 => m.edge_mut(e).set_curve_type(CurvedEdgeType::QuadraticBezier(c)),
                1 => m.edge_mut(e).set_curve_type(CurvedEdgeType::CubicBezier(c, d)),
                _ => {}
            }
        }
    },
    |p: &Vec<i64>| pnu::<2>(p)
);
/// A vertex payload or a vector on its own.
fn single<const D: usize>(rng: &mut Rng, k: &str, x: &[i64], a: &Map, bare: bool) {
    let (p, q) = (small(rng, D, 9), small(rng, D, 9));
    let cp = rng.chance(1, 2);
    let mut pay = pnu::<D>(&p);
    pay.set_normal(vec(&q));
    pay.set_uv(VecN::<f64, 2>::new(3.0, -4.0));
    let mut bar: VecN<f64, D> = vec(&p);
    fn mv<const D: usize, T: Transformable<D, S = f64, Vec = VecN<f64, D>, Rot = NdRotate<f64, D>, Trans = NdAffine<f64, D>>>(t: &mut T, k: &str, x: &[i64], a: &Map, cp: bool) -> T {
        match (k, cp) {
            ("transform", true) => t.transformed(&a.nd()),
            ("transform", false) => t.transform(&a.nd()).clone(),
            ("translate", true) => t.translated(&vec(x)),
            ("translate", false) => t.translate(&vec(x)).clone(),
            ("scale", true) => t.scaled(&vec(x)),
            ("scale", false) => t.scale(&vec(x)).clone(),
            (_, true) => t.rotated(&NdRotate::new(a.mat())),
            (_, false) => t.rotate(&NdRotate::new(a.mat())).clone(),
        }
    }
    let w = |t: &VertexPayloadPNU<f64, D>| {
        let (x, n): (&VecN<f64, D>, &VecN<f64, D>) = (t.pos(), t.normal());
        let u: &VecN<f64, 2> = t.uv();
        json!({"X": [ints::<f64, D>(x, near)], "N": [ints::<f64, D>(n, near)], "U": [[near(u[0]), near(u[1])]], "C": []})
    };
    let b = |t: &VecN<f64, D>| json!({"X": [ints::<f64, D>(t, near)], "N": [], "U": [], "C": []});
    let w0 = if bare { b(&bar) } else { w(&pay) };
    let v = json!({"op": "mesh", "k": k, "d": D, "v": x, "A": a.js(), "cp": cp, "w": w0, "w0": {}, "w2": {}, "same": true, "st": "ok", "bare": bare});
    let r = guard(&v, || {
        if bare {
            let r = mv(&mut bar, k, x, a, cp);
            json!({"w2": b(&r), "w0": b(&bar)})
        } else {
            let r = mv(&mut pay, k, x, a, cp);
            json!({"w2": w(&r), "w0": w(&pay)})
        }
    });
    finish(v, r);
}
/// Exchanging y and z in a mesh.
fn yz(rng: &mut Rng) {
    let n = rng.range(3, 6) as usize;
    let pts: Vec<Vec<i64>> = (0..n).map(|_| small(rng, 3, 9)).collect();
    let mut m = Mesh3d64::new();
    m.insert_polygon(pts.iter().map(|p| pnu::<3>(p)));
    if n > 4 { m.add_vertex(pnu::<3>(&pts[0])); }
    m.vertices_mut().enumerate().for_each(|(i, v)| {
        v.payload_mut().set_normal(vec::<f64, 3>(&[i as i64, 2, -1]));
        v.payload_mut().set_uv(VecN::<f64, 2>::new(i as f64, 7.0));
    });
    let w = |m: &Mesh3d64| {
        let xs: Vec<Vec<i64>> = m.vertices().map(|v| ints::<f64, 3>(&v.pos(), near)).collect();
        let us: Vec<Vec<i64>> = m.vertices().map(|v| { let u: &VecN<f64, 2> = v.payload().uv(); vec![near(u[0]), near(u[1])] }).collect();
        json!({"X": xs, "U": us, "l": format!("{:?}", m.edges().map(|h| (h.id(), h.next_id(), h.prev_id(), h.twin_id(), h.origin_id(), h.face_id())).collect::<Vec<_>>())})
    };
    let v = json!({"op": "yz", "w": w(&m), "w2": {}, "st": "ok"});
    let r = guard(&v, || {
        let r = m.flip_yz().clone();
        json!({"w2": w(&r)})
    });
    finish(v, r);
}
/// Comparing maps.
fn about<const D: usize, S: ScalarPlus>(rng: &mut Rng) {
    let a = any_map(rng, D);
    let mut b = Map { m: a.m.clone(), t: a.t.clone() };
    for _ in 0..rng.below(3) {
        let i = rng.below(D);
        let d = rng.range(-4, 4);
        if rng.chance(1, 2) { b.t[i] += d } else { b.m[i][rng.below(D)] += d }
    }
    // half of an odd number: never met exactly
    let e2 = *rng.pick(&[1, 3, 5, 7]);
    let v = json!({"op": "about", "A": a.js(), "B": b.js(), "e2": e2, "r": false, "st": "ok"});
    let r = guard(&v, || json!({"r": a.nd::<D, S>().is_about(&b.nd::<D, S>(), S::from(e2 as f32 / 2.0))}));
    finish(v, r);
}
fn lerps<const D: usize>(rng: &mut Rng) {
    let (p, q, n, o) = (small(rng, D, 9), small(rng, D, 9), small(rng, D, 9), small(rng, D, 9));
    let t4 = *rng.pick(&[0, 1, 2, 3, 4, -2, 7]);
    let (bare, cp) = (rng.chance(1, 2), rng.chance(1, 2));
    let (x, y) = if bare { (json!([p]), json!([q])) } else { (json!([p, n, [1, -2]]), json!([q, o, [5, 3]])) };
    let v = json!({"op": "lerp", "x": x, "y": y, "q": t4, "r": [], "same": true, "st": "ok"});
    let four = |x: f64| near(4.0 * x);
    let r = guard(&v, || {
        let t = t4 as f64 / 4.0;
        if bare {
            let (mut a, b) = (vec::<f64, D>(&p), vec::<f64, D>(&q));
            let r = if cp { Transformable::lerped(&a, &b, t) } else { *Transformable::lerp(&mut a, &b, t) };
            json!({"r": [ints::<f64, D>(&r, four)], "same": if cp { a == vec::<f64, D>(&p) } else { a == r }})
        } else {
            let (mut a, mut b) = (pnu::<D>(&p), pnu::<D>(&q));
            a.set_normal(vec(&n));
            b.set_normal(vec(&o));
            a.set_uv(VecN::<f64, 2>::new(1.0, -2.0));
            b.set_uv(VecN::<f64, 2>::new(5.0, 3.0));
            let old = a.clone();
            let r = if cp { a.lerped(&b, t) } else { a.lerp(&b, t).clone() };
            let (x, nn): (&VecN<f64, D>, &VecN<f64, D>) = (r.pos(), r.normal());
            let u: &VecN<f64, 2> = r.uv();
            json!({"r": [ints::<f64, D>(x, four), ints::<f64, D>(nn, four), vec![four(u[0]), four(u[1])]], "same": if cp { a == old } else { a == r }})
        }
    });
    finish(v, r);
}
fn dims<const D: usize>(rng: &mut Rng) {
    make::<D, f64>(rng);
    make::<D, f32>(rng);
    let k = *rng.pick(&["translate", "scale", "chain"]);
    let (a, b) = (any_map(rng, D), any_map(rng, D));
    step::<D, f64>(&a, k, &small(rng, D, 9), &b);
    step::<D, f32>(&b, k, &small(rng, D, 9), &a);
    let k = *rng.pick(&["transform", "translate", "scale", "rotate"]);
    let mut a = any_map(rng, D);
    if k == "rotate" {
        a.m = turn(rng, D)
    }
    let x = small(rng, D, 5);
    let bare = rng.chance(1, 2);
    single::<D>(rng, k, &x, &a, bare);
    lerps::<D>(rng);
    about::<D, f64>(rng);
    about::<D, f32>(rng);
    if D == 3 { yz(rng) }
    let s = rng.below(12);
    match D {
        2 if s % 3 == 0 => curved(rng, k, &x, &a, s),
        2 => mesh2(rng, k, &x, &a, s),
        3 => mesh3(rng, k, &x, &a, s),
        _ => mesh4(rng, k, &x, &a, s),
    }
}
/// A composition of transforms of the plane, step by step, and a mesh that goes through it.
fn script(rng: &mut Rng, ops: &[Value]) {
    let l = |v: &Value| -> Vec<i64> { serde_json::from_value(v.clone()).unwrap() };
    let mm = |v: &Value| -> Vec<Vec<i64>> { serde_json::from_value(v.clone()).unwrap() };
    let as_map = |o: &Value| -> Map {
        match o[0].as_str().unwrap() {
            "translate" => Map { t: l(&o[1]), ..Map::one(2) },
            "scale" => { let v = l(&o[1]); Map { m: vec![vec![v[0], 0], vec![0, v[1]]], t: vec![0, 0] } }
            "rotate" => Map { m: mm(&o[1]), t: vec![0, 0] },
            _ => Map { m: mm(&o[1]["m"]), t: l(&o[1]["t"]) },
        }
    };
    // the maps as the library composes them
    let mut t = NdAffine::<f64, 2>::identity();
    let read = |t: &NdAffine<f64, 2>| { let s = seen(t, near); Map { m: mm(&s["m"]), t: l(&s["t"]) } };
    for (i, o) in ops.iter().enumerate() {
        let a = read(&t);
        let k = o[0].as_str().unwrap();
        let b = as_map(o);
        let x = if k == "translate" || k == "scale" { l(&o[1]) } else { vec![0, 0] };
        t = match k { "translate" => t.with_translation(vec(&x)), "scale" => t.with_scale(vec(&x)), "rotate" => t.chain(&NdAffine::from_rotation(NdRotate::new(b.mat()))), _ => t.chain(&b.nd()) };
        if i + 1 == ops.len() {
            let v = json!({"op": "step", "k": if k == "rotate" { "chain" } else { k }, "A": a.js(), "v": x, "B": b.js(), "st": "ok", "r": seen(&t, near)});
            emit(&v);
            let c = read(&t);
            let s = rng.below(12);
            if s % 2 == 0 { mesh2(rng, "transform", &x, &c, s) } else { curved(rng, if k == "chain" { "transform" } else { k }, &x, &b, s) }
        }
    }
}
pub fn run(rng: &mut Rng, path: Option<&str>, runs: usize) {
    let text = path.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    for line in text.lines() {
        if let Ok(Value::Array(ops)) = serde_json::from_str::<Value>(line) {
            if ops.iter().all(|o| o[0].is_string()) {
                script(rng, &ops);
            }
        }
    }
    for _ in 0..runs {
        dims::<2>(rng);
        dims::<3>(rng);
        dims::<4>(rng);
    }
}
