//! The vectors of the bevy extension: as the vectors of ../harness/src/sums.rs.
use crate::backend::*;
use crate::maps::Listed;
use crate::plane::fi;
use crate::util::*;
use bevy::math::{Vec2, Vec3, Vec4};
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

fn run1(mut v: Value, g: impl FnOnce() -> Value) {
    match guard(&v, g) {
        Ok(r) => v["r"] = r,
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}
fn i(x: f32) -> i64 {
    fi(x as f64, 1.0)
}
fn m(x: f32) -> i64 {
    fi(x as f64, 1000.0)
}
fn split(x: f32, b: f64) -> [i64; 2] {
    let x = x as f64;
    let h = (x / b).round();
    [fi(x - h * b, 1.0), fi(h, 1.0)]
}
fn sum(rng: &mut Rng) {
    let n = rng.range(1, 40) as usize;
    let (num, den) = *rng.pick(&[(1, 2), (1, 8), (0, 1)]);
    let mut l: Vec<[i64; 2]> = (0..n).map(|_| [if rng.chance(1, 3) { rng.range(-7, 7) } else { rng.range(1, 7) }, rng.chance(num, den) as i64]).collect();
    match rng.below(3) {
        0 => l.sort_by_key(|x| x[1]),
        1 => l.sort_by_key(|x| -x[1]),
        _ => {}
    }
    run1(json!({"op": "sum", "S": l, "a": [1], "st": "ok", "r": {}}), || {
        let b = 2f64.powi(25);
        let v = |x: &[i64; 2]| (if x[1] == 1 { x[0] as f64 * b } else { x[0] as f64 }) as f32;
        let xs: Vec<f32> = l.iter().map(v).collect();
        let vs: Vec<Vec3> = l.iter().map(|x| Vec3::new(v(x), -v(x), 3.0 * x[0] as f32)).collect();
        let even = xs.len() % 2 == 0;
        let s: f32 = Scalar::stable_sum(xs.iter().copied());
        let ext = ScalarIteratorExt::stable_sum(xs.iter().copied());
        let mm: f32 = Scalar::stable_mean(xs.iter().copied());
        let (_, n) = neumaier_summation(xs.iter().copied());
        let w: Vec3 = if even { <Vec3 as Vector<f32, 3>>::stable_sum(vs.iter().copied()) } else { VectorIteratorExt::stable_sum(vs.iter().copied()) };
        let wm: Vec3 = if even { <Vec3 as Vector<f32, 3>>::stable_mean(vs.iter().copied()) } else { VectorIteratorExt::stable_mean(vs.iter().copied()) };
        let (_, wn) = kahan_summation(vs.iter().copied());
        let mean = |x: f32| [m(x), fi(x as f64 / b, 1000.0)];
        json!({"sum": split(s, b), "ext": split(ext, b), "n": n, "mean": mean(mm), "vsum": [split(w.x, b), split(w.y, b), split(w.z, b)], "vn": wn,
            "vmean": [mean(wm.x), mean(wm.y), mean(wm.z)]})
    });
}
fn made<const D: usize, V: Vector<f32, D>>(s: &[i64; 4]) -> Value {
    let (a, b, c) = (s[1] as f32, s[2] as f32, s[3] as f32);
    let o = |v: V| [v.x(), v.y(), v.z(), v.w()].map(i);
    let p = V::from_xyz(a, b, c);
    let q: Vec2 = p.vec2();
    json!({"x": o(V::from_x(a)), "xy": o(V::from_xy(a, b)), "xyz": o(p), "splat": o(V::splat(a)), "zero": o(<V as Vector<f32, D>>::zero()), "v2": [i(q.x), i(q.y)]})
}
fn common<const D: usize, V: Vector<f32, D> + Listed>(a: &[i64], b: &[i64]) -> Value {
    let (a, b) = (V::int(&a[..D]), V::int(&b[..D]));
    let t = Vector::<f32, D>::angle_between(&a, b);
    let u = Vector::<f32, D>::normalize(&a);
    json!({"dot": i(Vector::<f32, D>::dot(&a, &b)), "d2": i(Vector::<f32, D>::distance_squared(&a, &b)), "l2": i(Vector::<f32, D>::length_squared(&a)),
        "d": m(Vector::<f32, D>::distance(&a, &b)), "l": m(Vector::<f32, D>::length(&a)), "t": [m(t.cos()), m(t.sin())], "in": t.abs() < 3.15,
        "u": u.ints(|x| fi(x, 1000.0)), "zero": [HasZero::is_zero(&a), HasZero::is_zero(&(a - a)), HasZero::is_zero(&(a - b))],
        "about": [Vector::<f32, D>::is_about(&a, &b, 1.5), Vector::<f32, D>::is_about(&a, &b, 4.5), Vector::<f32, D>::is_about(&a, &a, 0.5)]})
}
fn out(s: &[i64; 8]) -> Value {
    let (x, y) = s.split_at(4);
    fn l<V: Listed>(v: V) -> Vec<i64> {
        v.ints(|x| fi(x, 1.0))
    }
    let (a, b) = (Vec2::int(&x[..2]), Vec2::int(&y[..2]));
    let two = json!({"c": common::<2, Vec2>(x, y), "perp": i(Vector2D::perp_dot(&a, &b)), "xy": l(Vector2D::xy(&a)), "yx": l(Vector2D::yx(&a)), "new": l(<Vec2 as Vector2D>::new(x[0] as f32, x[1] as f32))});
    let (a, b) = (Vec3::int(&x[..3]), Vec3::int(&y[..3]));
    let (t, r) = (Vector3D::tuple(&a), Vector3D::to_array(&a));
    let sp = Vector3D::spherical(&a);
    let three = json!({"c": common::<3, Vec3>(x, y), "cross": l(Vector3D::cross(&a, &b)), "normal": l(Vector3D::normal(&a, b, Vec3::new(1.0, 2.0, 3.0))),
        "sw": [l(Vector3D::xyz(&a)), l(Vector3D::xzy(&a)), l(Vector3D::yxz(&a)), l(Vector3D::yzx(&a)), l(Vector3D::zxy(&a)), l(Vector3D::zyx(&a)), vec![i(t.0), i(t.1), i(t.2)], r.map(i).to_vec(), l(<Vec3 as Vector3D>::new(t.0, t.1, t.2))],
        "sp": [m(sp.r()), m(sp.phi().cos()), m(sp.phi().sin()), m(sp.theta().cos())], "ins": sp.theta() >= 0.0 && sp.theta() < 3.15, "back": l(sp.cartesian())});
    let a = Vec4::int(x);
    let (t, r) = (Vector4D::tuple(&a), Vector4D::to_array(&a));
    let four = json!({"c": common::<4, Vec4>(x, y), "sw": [l(Vector4D::xyzw(&a)), vec![i(t.0), i(t.1), i(t.2), i(t.3)], r.map(i).to_vec(), l(<Vec4 as Vector4D>::new(t.0, t.1, t.2, t.3))]});
    json!({"two": two, "three": three, "four": four})
}
fn slerp(rng: &mut Rng) {
    let (q, v) = *rng.pick(&[(1, [1, 0, 0]), (3, [1, 2, 2]), (5, [3, 4, 0]), (7, [2, 3, 6]), (9, [1, 4, 8]), (9, [4, 4, 7])]);
    let mut any = || {
        let mut v = if rng.chance(1, 3) { [q, 0, 0] } else { v };
        rng.shuffle(&mut v);
        v.map(|x| if rng.chance(1, 2) { -x } else { x })
    };
    let (a, b) = (any(), any());
    run1(json!({"op": "slerp", "a": a, "b": b, "q": q, "st": "ok", "r": []}), || {
        let v = |x: [i64; 3]| Vec3::int(&x) / q as f32;
        json!((0..9).map(|k| Vector3D::slerp(&v(a), &v(b), k as f32 / 8.0).ints(|x| fi(x, 1000.0))).collect::<Vec<_>>())
    });
}
pub fn run(rng: &mut Rng, runs: usize) {
    for k in 0..runs {
        sum(rng);
        slerp(rng);
        if k % 4 > 0 {
            continue;
        }
        let l: Vec<[i64; 4]> = (0..12).map(|i| [i % 3 + 2, rng.range(-50, 50), rng.range(-50, 50), rng.range(-50, 50)]).collect();
        run1(json!({"op": "make", "S": l, "a": [0], "st": "ok", "r": []}), || {
            json!(l.iter().map(|s| match s[0] { 2 => made::<2, Vec2>(s), 3 => made::<3, Vec3>(s), _ => made::<4, Vec4>(s) }).collect::<Vec<_>>())
        });
        let l: Vec<[i64; 8]> = (0..8)
            .map(|_| {
                let m = *rng.pick(&[2, 9]);
                [0; 8].map(|_| rng.range(-m, m))
            })
            .collect();
        run1(json!({"op": "vector", "S": l, "a": [0], "st": "ok", "r": []}), || json!(l.iter().map(out).collect::<Vec<_>>()));
    }
}
