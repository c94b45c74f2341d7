//! The maps of the bevy extension: Affine2, Transform and Mat5, and what they move.
use crate::backend::*;
use crate::util::*;
use bevy::math::{Affine2, Mat2, Mat3, Quat, Vec2, Vec3, Vec4};
use bevy::transform::components::Transform;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

/// The maps of four dimensions; their type has no public name.
type Mat5f = <Vec4 as Transformable<4>>::Trans;

const BAD: i64 = -999_999_999;
/// A float that must be an integer, up to rounding errors.
fn near(x: f64) -> i64 {
    if x.is_finite() && x.abs() < 9.0e8 && (x - x.round()).abs() < 1e-3 { x.round() as i64 } else { BAD }
}
fn milli(x: f64) -> i64 {
    crate::plane::fi(x, 1000.0)
}
/// Vectors from and to lists.
pub trait Listed: Copy {
    fn of(x: &[f64]) -> Self;
    fn list(&self) -> Vec<f64>;
    fn ints(&self, f: fn(f64) -> i64) -> Vec<i64> {
        self.list().into_iter().map(f).collect()
    }
    fn int(x: &[i64]) -> Self {
        Self::of(&x.iter().map(|x| *x as f64).collect::<Vec<_>>())
    }
}
macro_rules! listed {
    ($($v:ty),*) => { $( impl Listed for $v {
        fn of(x: &[f64]) -> Self { <$v>::from_slice(&x.iter().map(|x| *x as f32).collect::<Vec<_>>()) }
        fn list(&self) -> Vec<f64> { self.to_array().iter().map(|x| *x as f64).collect() }
    } )* };
}
listed!(Vec2, Vec3, Vec4);
fn diag(v: &[i64]) -> Vec<Vec<i64>> {
    (0..v.len()).map(|i| (0..v.len()).map(|j| if i == j { v[i] } else { 0 }).collect()).collect()
}
fn times(a: &[Vec<i64>], b: &[Vec<i64>]) -> Vec<Vec<i64>> {
    (0..a.len()).map(|i| (0..a.len()).map(|j| (0..a.len()).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}
#[derive(Clone)]
struct Map {
    m: Vec<Vec<i64>>,
    t: Vec<i64>,
    /// as rotation after scale
    r: Vec<Vec<i64>>,
    s: Vec<i64>,
}
impl Map {
    fn js(&self) -> Value {
        json!({"m": self.m, "t": self.t})
    }
    fn uniform(&self) -> bool {
        self.s.iter().all(|x| *x == self.s[0])
    }
    fn plain(&self) -> bool {
        self.r == diag(&vec![1; self.s.len()])
    }
}
/// Maps with a dimension and an integer description.
trait Known<const D: usize>: TransformTrait<f32, D, Vec = <Self as Known<D>>::W> + Copy + std::panic::RefUnwindSafe {
    type W: Vector<f32, D> + Listed + std::panic::RefUnwindSafe;
    fn known(a: &Map) -> Self;
    fn any(rng: &mut Rng) -> Map;
    /// B after A can be written in this form.
    fn holds(a: &Map, b: &Map) -> bool;
}
fn small(rng: &mut Rng, d: usize, m: i64) -> Vec<i64> {
    (0..d).map(|_| rng.range(-m, m)).collect()
}
/// A rotation with integer entries.
fn turn(rng: &mut Rng, d: usize) -> Vec<Vec<i64>> {
    let mut p: Vec<usize> = (0..d).collect();
    let mut sign = 1;
    for i in (1..d).rev() {
        let j = rng.below(i + 1);
        if i != j { sign = -sign }
        p.swap(i, j)
    }
    let mut m = vec![vec![0; d]; d];
    for i in 0..d {
        let s = if i + 1 == d { sign } else if rng.chance(1, 2) { -1 } else { 1 };
        sign *= s;
        m[i][p[i]] = s;
    }
    m
}
fn mat3(m: &[Vec<i64>]) -> Mat3 {
    let c = |j: usize| Vec3::new(m[0][j] as f32, m[1][j] as f32, m[2][j] as f32);
    Mat3::from_cols(c(0), c(1), c(2))
}
fn angle(m: &[Vec<i64>]) -> f32 {
    (m[1][0] as f32).atan2(m[0][0] as f32)
}
impl Known<2> for Affine2 {
    type W = Vec2;
    fn known(a: &Map) -> Self {
        let m = &a.m;
        Affine2::from_mat2_translation(Mat2::from_cols(Vec2::new(m[0][0] as f32, m[1][0] as f32), Vec2::new(m[0][1] as f32, m[1][1] as f32)), Vec2::int(&a.t))
    }
    fn any(rng: &mut Rng) -> Map {
        Map { m: (0..2).map(|_| small(rng, 2, 3)).collect(), t: small(rng, 2, 9), r: diag(&[1, 1]), s: vec![1, 1] }
    }
    fn holds(_: &Map, _: &Map) -> bool {
        true
    }
}
impl Known<3> for Transform {
    type W = Vec3;
    fn known(a: &Map) -> Self {
        Transform { translation: Vec3::int(&a.t), rotation: Quat::from_mat3(&mat3(&a.r)), scale: Vec3::int(&a.s) }
    }
    fn any(rng: &mut Rng) -> Map {
        let r = if rng.chance(1, 3) { diag(&[1, 1, 1]) } else { turn(rng, 3) };
        let s = match rng.below(3) { 0 => vec![1, 1, 1], 1 => { let x = rng.range(-3, 3); vec![x, x, x] } _ => small(rng, 3, 3) };
        Map { m: times(&r, &diag(&s)), t: small(rng, 3, 9), r, s }
    }
    // rotation after scale: an uneven scale cannot follow a rotation
    fn holds(a: &Map, b: &Map) -> bool {
        a.plain() || b.uniform()
    }
}
impl Known<4> for Mat5f {
    type W = Vec4;
    fn known(a: &Map) -> Self {
        <Mat5f as TransformTrait<f32, 4>>::with_translation(&<Mat5f as TransformTrait<f32, 4>>::from_scale(Vec4::int(&a.s)), Vec4::int(&a.t))
    }
    fn any(rng: &mut Rng) -> Map {
        let s = small(rng, 4, 3);
        Map { m: diag(&s), t: small(rng, 4, 9), r: diag(&[1; 4]), s }
    }
    fn holds(_: &Map, _: &Map) -> bool {
        true
    }
}
/// What a map does, by its images of the origin and the unit vectors.
fn seen<const D: usize, T: Known<D>>(a: &T, f: fn(f64) -> i64) -> Value {
    let unit = |k: usize| { let mut v = vec![0; D]; v[k] = 1; T::W::int(&v) };
    let o = a.apply(T::W::int(&vec![0; D]));
    let cols: Vec<Vec<i64>> = (0..D).map(|k| (a.apply(unit(k)) - o).ints(f)).collect();
    let vols: Vec<Vec<i64>> = (0..D).map(|k| a.apply_vec(unit(k)).ints(f)).collect();
    let rows = |c: &Vec<Vec<i64>>| -> Vec<Vec<i64>> { (0..D).map(|i| (0..D).map(|j| c[j][i]).collect()).collect() };
    json!({"m": rows(&cols), "t": o.ints(near), "vm": rows(&vols)})
}
fn finish(mut v: Value, r: Result<Value, String>) {
    match r {
        Ok(r) => r.as_object().unwrap().iter().for_each(|(k, x)| v[k] = x.clone()),
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.chars().take(160).collect::<String>().into()
        }
    }
    emit(&v);
}
const ANGLES: [[i64; 3]; 10] = [[1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1], [3, 4, 5], [-3, 4, 5], [4, -3, 5], [5, 12, 13], [-12, -5, 13], [24, 7, 25]];
const AXES: [[i64; 3]; 7] = [[1, 0, 0], [0, 1, 0], [0, 0, -1], [1, 2, 2], [-2, 1, 2], [2, 3, 6], [-2, -2, 1]];
fn make<const D: usize, T: Known<D>>(rng: &mut Rng, special: impl Fn(&str, &[Vec<i64>]) -> T + std::panic::RefUnwindSafe) {
    let k = *rng.pick(&["identity", "translation", "scale", "rotation", "affine", "arc", "arc", "angle", "axis", "axis"]);
    if ["arc", "rotation"].contains(&k) && D > 3 || k == "angle" && D != 2 || k == "axis" && D != 3 {
        return;
    }
    let m = T::any(rng);
    let a: Vec<Vec<i64>> = match k {
        "identity" => vec![],
        "rotation" => turn(rng, D),
        "affine" => { let mut l = m.m.clone(); l.push(m.t.clone()); l }
        "arc" => {
            let pick = |rng: &mut Rng| loop { let v = small(rng, D, 4); if v.iter().any(|x| *x != 0) { return v; } };
            let x = pick(rng);
            let y = match rng.below(5) { 0 => x.iter().map(|c| -c).collect(), 1 => x.iter().map(|c| 2 * c).collect(), _ => pick(rng) };
            vec![x, y]
        }
        "angle" => vec![rng.pick(&ANGLES).to_vec()],
        "axis" => vec![rng.pick(&AXES).to_vec(), rng.pick(&ANGLES).to_vec()],
        _ => vec![small(rng, D, 9)],
    };
    let v = json!({"op": "make", "k": k, "d": D, "a": a, "st": "ok", "r": {}});
    let r = guard(&v, || {
        let t: T = match k {
            "identity" => T::identity(),
            "translation" => T::from_translation(T::W::int(&a[0])),
            "scale" => T::from_scale(T::W::int(&a[0])),
            "affine" => T::known(&m),
            // the arc between directions
            "arc" => { let u = |x: &Vec<i64>| { let v = T::W::int(x); Vector::<f32, D>::normalize(&v) }; T::from_rotation_arc(u(&a[0]), u(&a[1])) }
            _ => special(k, &a),
        };
        json!({"r": seen(&t, milli)})
    });
    finish(v, r);
}
fn step<const D: usize, T: Known<D>>(rng: &mut Rng) {
    let k = *rng.pick(&["translate", "scale", "chain"]);
    let (a, b) = (T::any(rng), T::any(rng));
    let x = small(rng, D, 9);
    let as_map = Map { m: diag(&x), t: vec![0; D], r: diag(&vec![1; D]), s: x.clone() };
    if k == "chain" && !T::holds(&a, &b) || k == "scale" && !T::holds(&a, &as_map) {
        return;
    }
    let v = json!({"op": "step", "k": k, "A": a.js(), "v": x, "B": b.js(), "st": "ok", "r": {}});
    let r = guard(&v, || {
        let t = T::known(&a);
        let t = match k { "translate" => t.with_translation(T::W::int(&x)), "scale" => t.with_scale(T::W::int(&x)), _ => t.chain(&T::known(&b)) };
        json!({"r": seen(&t, near)})
    });
    finish(v, r);
}
/// Something moved: by a map, a vector, or a rotation; `w` tells what is there.
fn moved<const D: usize, T, K>(rng: &mut Rng, mut x: T, rot: fn(&[Vec<i64>]) -> T::Rot, w: impl Fn(&T, bool) -> Value)
where
    K: Known<D>,
    T: Transformable<D, S = f32, Trans = K, Vec = K::W>,
{
    let kinds: &[&str] = if D == 4 { &["transform", "translate", "scale"] } else { &["transform", "translate", "scale", "rotate"] };
    let k = *rng.pick(kinds);
    let mut a = K::any(rng);
    if k == "rotate" { a.m = turn(rng, D) }
    let v = small(rng, D, 5);
    let cp = rng.chance(1, 2);
    let n = k != "scale";
    let ev = json!({"op": "mesh", "k": k, "d": D, "v": v, "A": a.js(), "cp": cp, "w": w(&x, n), "w0": {}, "w2": {}, "same": true, "st": "ok"});
    let r = guard(&ev, || {
        let u = K::W::int(&v);
        let r = match (k, cp) {
            ("transform", true) => x.transformed(&K::known(&a)),
            ("transform", false) => x.transform(&K::known(&a)).clone(),
            ("translate", true) => x.translated(&u),
            ("translate", false) => x.translate(&u).clone(),
            ("scale", true) => x.scaled(&u),
            ("scale", false) => x.scale(&u).clone(),
            (_, true) => x.rotated(&rot(&a.m)),
            (_, false) => x.rotate(&rot(&a.m)).clone(),
        };
        json!({"w2": w(&r, n), "w0": w(&x, n)})
    });
    finish(ev, r);
}
/// A mesh moved as a whole.
macro_rules! mesh {
    ($rng:expr, $d:literal, $mesh:ty, $map:ty, $m:expr, $rot:expr, $w:expr) => {{
        let (rng, w): (&mut Rng, _) = ($rng, $w);
        let mut m: $mesh = $m;
        let k = *rng.pick(&["transform", "translate", "scale", "rotate"]);
        let mut a = <$map as Known<$d>>::any(rng);
        if k == "rotate" { a.m = turn(rng, $d) }
        let v = small(rng, $d, 5);
        let cp = rng.chance(1, 2);
        let n = k != "scale";
        let ev = json!({"op": "mesh", "k": k, "d": $d, "v": v, "A": a.js(), "cp": cp, "w": w(&m, n), "w0": {}, "w2": {}, "same": true, "st": "ok"});
        let links = |m: &$mesh| {
            let e: Vec<_> = m.edges().map(|h| (h.id(), h.next_id(), h.prev_id(), h.twin_id(), h.origin_id(), h.face_id())).collect();
            let f: Vec<_> = m.faces().map(|f| (f.id(), f.edge_id())).collect();
            let v: Vec<_> = m.vertices().map(|v| (v.id(), v.edge_id(m))).collect();
            format!("{e:?} {f:?} {v:?}")
        };
        let l = links(&m);
        let r = guard(&ev, || {
            let u = <$map as Known<$d>>::W::int(&v);
            let t = <$map as Known<$d>>::known(&a);
            let r: $mesh = match (k, cp) {
                ("transform", true) => TransformableMesh::transformed(&m, &t),
                ("transform", false) => TransformableMesh::transform(&mut m, &t).clone(),
                ("translate", true) => TransformableMesh::translated(&m, &u),
                ("translate", false) => TransformableMesh::translate(&mut m, &u).clone(),
                ("scale", true) => TransformableMesh::scaled(&m, &u),
                ("scale", false) => TransformableMesh::scale(&mut m, &u).clone(),
                (_, true) => TransformableMesh::rotated(&m, &$rot(&a.m)),
                (_, false) => TransformableMesh::rotate(&mut m, &$rot(&a.m)).clone(),
            };
            json!({"w2": w(&r, n), "w0": w(&m, n), "same": links(&r) == l && links(&m) == l})
        });
        finish(ev, r);
    }};
}
fn quat(m: &[Vec<i64>]) -> Quat {
    Quat::from_mat3(&mat3(m))
}
fn vp3(p: &[i64], n: &[i64], u: [i64; 2]) -> VP3 {
    let mut v = VP3::from_pos(Vec3::int(p));
    v.set_normal(Vec3::int(n));
    v.set_uv(Vec2::int(&u));
    v
}
fn w3(v: &[VP3], n: bool) -> Value {
    json!({"X": v.iter().map(|v| v.pos().ints(near)).collect::<Vec<_>>(), "N": if n { v.iter().map(|v| v.normal().ints(near)).collect() } else { vec![] },
        "U": v.iter().map(|v| v.uv().ints(near)).collect::<Vec<_>>(), "C": []})
}
fn bare<V: Listed>(v: &V, _: bool) -> Value {
    json!({"X": [v.ints(near)], "N": [], "U": [], "C": []})
}
fn lerps(rng: &mut Rng) {
    let t4 = *rng.pick(&[0, 1, 2, 3, 4, -2, 7]);
    let four = |x: f64| near(4.0 * x);
    let t = t4 as f32 / 4.0;
    fn both<const D: usize, T: Transformable<D, S = f32> + PartialEq>(a: &T, b: &T, t: f32, cp: bool) -> (T, bool) {
        let mut c = a.clone();
        if cp { let r = Transformable::lerped(&c, b, t); let same = c == *a; (r, same) } else { let r = Transformable::lerp(&mut c, b, t).clone(); let same = c == r; (r, same) }
    }
    let cp = rng.chance(1, 2);
    let mut go = |x: Vec<Vec<i64>>, y: Vec<Vec<i64>>, f: &dyn Fn() -> (Vec<Vec<i64>>, bool)| {
        let v = json!({"op": "lerp", "x": x, "y": y, "q": t4, "r": [], "same": true, "st": "ok"});
        let r = guard(&v, || { let (r, s) = f(); json!({"r": r, "same": s}) });
        finish(v, r);
    };
    let (p, q, n, o) = (small(rng, 3, 9), small(rng, 3, 9), small(rng, 3, 9), small(rng, 3, 9));
    go(vec![p.clone(), n.clone(), vec![1, -2]], vec![q.clone(), o.clone(), vec![5, 3]], &|| {
        let (r, s) = both::<3, VP3>(&vp3(&p, &n, [1, -2]), &vp3(&q, &o, [5, 3]), t, cp);
        (vec![r.pos().ints(four), r.normal().ints(four), r.uv().ints(four)], s)
    });
    go(vec![p.clone()], vec![q.clone()], &|| { let (r, s) = both::<3, Vec3>(&Vec3::int(&p), &Vec3::int(&q), t, cp); (vec![r.ints(four)], s) });
    let (p2, q2) = (small(rng, 2, 9), small(rng, 2, 9));
    go(vec![p2.clone()], vec![q2.clone()], &|| { let (r, s) = both::<2, Vec2>(&Vec2::int(&p2), &Vec2::int(&q2), t, cp); (vec![r.ints(four)], s) });
    go(vec![p2.clone()], vec![q2.clone()], &|| {
        let (r, s) = both::<2, VP2>(&VP2::from_pos(Vec2::int(&p2)), &VP2::from_pos(Vec2::int(&q2)), t, cp);
        (vec![r.pos().ints(four)], s)
    });
    let (p4, q4) = (small(rng, 4, 9), small(rng, 4, 9));
    go(vec![p4.clone()], vec![q4.clone()], &|| { let (r, s) = both::<4, Vec4>(&Vec4::int(&p4), &Vec4::int(&q4), t, cp); (vec![r.ints(four)], s) });
}
fn meshes(rng: &mut Rng) {
    let n = rng.range(3, 6) as usize;
    let mut m = M3::new();
    m.insert_polygon((0..n).map(|i| vp3(&small(rng, 3, 9), &small(rng, 3, 3), [i as i64, 7])));
    if n > 4 { m.add_vertex(vp3(&small(rng, 3, 9), &[1, 2, 3], [8, 7])); }
    if n == 3 { m.add_isolated_edge_default(vp3(&[1, 2, 3], &[0, 0, 1], [8, 7]), vp3(&[4, -5, 6], &[0, 1, 1], [9, 7])); }
    mesh!(rng, 3, M3, Transform, m, quat, |m: &M3, n: bool| w3(&m.vertices().map(|v| *v.payload()).collect::<Vec<_>>(), n));
    let mut m = M2::new();
    m.insert_polygon((0..n).map(|_| VP2::from_pos(Vec2::int(&small(rng, 2, 9)))));
    let ids: Vec<u32> = m.edges().map(|e| e.id()).collect();
    for e in ids {
        let (c, d) = (Vec2::int(&small(rng, 2, 9)), Vec2::int(&small(rng, 2, 9)));
        match rng.below(3) {
            0 => m.edge_mut(e).set_curve_type(CurvedEdgeType::QuadraticBezier(c)),
            1 => m.edge_mut(e).set_curve_type(CurvedEdgeType::CubicBezier(c, d)),
            _ => {}
        }
    }
    mesh!(rng, 2, M2, Affine2, m, angle, |m: &M2, _: bool| {
        let c: Vec<Vec<Vec<i64>>> = m.edges().map(|e| match e.curve_type() {
            CurvedEdgeType::Linear => vec![],
            CurvedEdgeType::QuadraticBezier(c) => vec![c.ints(near)],
            CurvedEdgeType::CubicBezier(c, d) => vec![c.ints(near), d.ints(near)],
        }).collect();
        json!({"X": m.vertices().map(|v| v.pos().ints(near)).collect::<Vec<_>>(), "N": [], "U": [], "C": c})
    });
}
pub fn run(rng: &mut Rng, runs: usize) {
    for _ in 0..runs {
        make::<2, Affine2>(rng, |k, a| match k {
            "rotation" => <Affine2 as TransformTrait<f32, 2>>::from_rotation(angle(a)),
            _ => <Affine2 as TransformTrait<f32, 2>>::from_rotation((a[0][1] as f32).atan2(a[0][0] as f32)),
        });
        let again = rng.below(4);
        make::<3, Transform>(rng, |k, a| match k {
            "rotation" => <Transform as TransformTrait<f32, 3>>::from_rotation(quat(a)),
            _ => {
                let axis = Vec3::int(&a[0]);
                let q = <Quat as Quarternion>::from_axis_angle(axis / axis.length(), (a[1][1] as f32).atan2(a[1][0] as f32));
                // and from what the quaternion tells about itself, and its opposite, which is the same rotation
                let told = |q: Quat| {
                    let (x, t) = Quarternion::axis_angle(&q);
                    <Quat as Quarternion>::from_axis_angle(x, t)
                };
                <Transform as TransformTrait<f32, 3>>::from_rotation(match again {
                    0 => q,
                    1 => told(q),
                    2 => told(-q),
                    _ => {
                        let v = Quarternion::vec4(&q);
                        Quat::from_xyzw(v.x, v.y, v.z, v.w)
                    }
                })
            }
        });
        make::<4, Mat5f>(rng, |_, _| unreachable!());
        step::<2, Affine2>(rng);
        step::<3, Transform>(rng);
        step::<4, Mat5f>(rng);
        let p = vp3(&small(rng, 3, 9), &small(rng, 3, 9), [3, -4]);
        moved::<3, VP3, Transform>(rng, p, quat, |x, n| w3(&[*x], n));
        let p = VP2::from_pos(Vec2::int(&small(rng, 2, 9)));
        moved::<2, VP2, Affine2>(rng, p, angle, |x, n| bare(x.pos(), n));
        let p = Vec2::int(&small(rng, 2, 9));
        moved::<2, Vec2, Affine2>(rng, p, angle, bare);
        let p = Vec3::int(&small(rng, 3, 9));
        moved::<3, Vec3, Transform>(rng, p, quat, bare);
        let p = Vec4::int(&small(rng, 4, 9));
        moved::<4, Vec4, Mat5f>(rng, p, |_| unreachable!(), bare);
        lerps(rng);
        meshes(rng);
    }
}
