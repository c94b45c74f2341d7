//! Sums and means of numbers of very different size, and elementary functions of numbers and vectors.
use crate::plane::fi;
use crate::util::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

fn f<S: ScalarPlus>(x: f64) -> S {
    S::from(x as f32)
}
fn run1(mut v: Value, g: impl FnOnce() -> Value) {
    let r = guard(&v, g);
    match r {
        Ok(r) => v["r"] = r,
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}

/// Level 0 and level 1 of a float: x = r[0] + r[1] * b.
fn split(x: f64, b: f64) -> [i64; 2] {
    let h = (x / b).round();
    [fi(x - h * b, 1.0), fi(h, 1.0)]
}
fn sum_out<S: ScalarPlus>(l: &[[i64; 2]], b: f64) -> Value {
    let v = |x: &[i64; 2]| -> S { f::<S>(if x[1] == 1 { x[0] as f64 * b } else { x[0] as f64 }) };
    let xs: Vec<S> = l.iter().map(v).collect();
    let vs: Vec<VecN<S, 3>> = l.iter().map(|x| VecN::<S, 3>::new(v(x), -v(x), f::<S>(3.0 * x[0] as f64))).collect();
    let s: S = Scalar::stable_sum(xs.iter().copied());
    let ext = ScalarIteratorExt::stable_sum(xs.iter().copied());
    let m: S = if xs.len() % 2 == 0 { Scalar::stable_mean(xs.iter().copied()) } else { ScalarIteratorExt::stable_mean(xs.iter().copied()) };
    let (_, n) = neumaier_summation(xs.iter().copied());
    let w: VecN<S, 3> = if xs.len() % 2 == 0 { <VecN<S, 3> as Vector<S, 3>>::stable_sum(vs.iter().copied()) } else { VectorIteratorExt::stable_sum(vs.iter().copied()) };
    let wm: VecN<S, 3> = if xs.len() % 2 == 0 { <VecN<S, 3> as Vector<S, 3>>::stable_mean(vs.iter().copied()) } else { VectorIteratorExt::stable_mean(vs.iter().copied()) };
    let (_, wn) = kahan_summation(vs.iter().copied());
    let mean = |x: S| [fi(x.to_f64(), 1000.0), fi(x.to_f64() / b, 1000.0)];
    json!({"sum": split(s.to_f64(), b), "ext": split(ext.to_f64(), b), "n": n, "mean": mean(m),
        "vsum": [split(w[0].to_f64(), b), split(w[1].to_f64(), b), split(w[2].to_f64(), b)], "vn": wn,
        "vmean": [mean(wm[0]), mean(wm[1]), mean(wm[2])]})
}
pub fn sum(rng: &mut Rng, l: &[[i64; 2]]) {
    let single = rng.chance(1, 3);
    run1(json!({"op": "sum", "S": l, "a": [single as i64], "st": "ok", "r": {}}), || {
        if single {
            sum_out::<f32>(l, 2f64.powi(25))
        } else {
            sum_out::<f64>(l, 2f64.powi(54))
        }
    });
}

fn number_out<S: ScalarPlus>(l: &[[i64; 4]]) -> Value {
    json!(l
        .iter()
        .map(|s| {
            let (a, b, c, k) = (f::<S>(s[0] as f64), f::<S>(s[1] as f64), f::<S>(s[2] as f64), f::<S>(s[3] as f64 / 8.0));
            let x = f::<S>(s[0] as f64 / 8.0);
            let pi = std::f64::consts::PI;
            let red = (s[0] as f64 / 8.0 + pi).rem_euclid(2.0 * pi) - pi;
            let (sn, cs) = (Scalar::sin(&x), Scalar::cos(&x));
            json!({"lerp": fi(Scalar::lerp(&a, b, k).to_f64(), 8.0),
                "clamp": if s[1] <= s[2] { fi(Scalar::clamp(a, b, c).to_f64(), 1.0) } else { 0 },
                "abs": fi(Scalar::abs(a).to_f64(), 1.0), "max": fi(Scalar::max(&a, b).to_f64(), 1.0), "min": fi(Scalar::min(&a, b).to_f64(), 1.0),
                "pos": Scalar::is_positive(a), "neg": Scalar::is_negative(a),
                "cmp": OrderedFloats::new(a).cmp(&OrderedFloats::new(b)) as i64,
                "about": [Scalar::is_about(&a, b, f(1.0)), Scalar::is_about(&a, b, f(2.0)), Scalar::is_about(&a, b, f(1.125))],
                "usize": if s[0] >= 0 { fi(<S as Scalar>::from_usize(s[0] as usize).to_f64(), 1.0) } else { 0 },
                "sqrt": if s[0] >= 0 { fi(Scalar::sqrt(a).to_f64(), 1000.0) } else { 0 },
                "trig": {"s": fi(sn.to_f64(), 10000.0), "c": fi(cs.to_f64(), 10000.0), "t": fi(Scalar::tan(&x).to_f64(), 1000.0),
                    "ct": if s[0] == 0 { 0 } else { fi(Scalar::cot(&x).to_f64(), 1000.0) }, "at": fi(Scalar::atan2(&sn, cs).to_f64(), 10000.0), "ac": fi(Scalar::acos(cs).to_f64(), 10000.0),
                    "red": fi(red, 10000.0)}})
        })
        .collect::<Vec<_>>())
}
pub fn numbers(rng: &mut Rng) {
    let l: Vec<[i64; 4]> = (0..20)
        .map(|_| {
            let m = *rng.pick(&[2, 6, 40]);
            [rng.range(-m, m), rng.range(-m, m), rng.range(-m, m), rng.range(-2, 10)]
        })
        .collect();
    let single = rng.chance(1, 3);
    run1(json!({"op": "number", "S": l, "a": [single as i64], "st": "ok", "r": []}), || if single { number_out::<f32>(&l) } else { number_out::<f64>(&l) });
    let d: Vec<Vec<i64>> = (0..10).map(|_| (0..9).map(|_| rng.range(-9, 9)).collect()).collect();
    run1(json!({"op": "det", "S": d, "a": [0], "st": "ok", "r": []}), || {
        json!(d
            .iter()
            .map(|d| {
                let x: Vec<f64> = d.iter().map(|x| *x as f64).collect();
                fi(<f64 as Scalar>::det3(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]), 1.0)
            })
            .collect::<Vec<_>>())
    });
}

fn made<S: ScalarPlus, const D: usize>(s: &[i64; 4]) -> Value {
    let (a, b, c) = (f::<S>(s[1] as f64), f::<S>(s[2] as f64), f::<S>(s[3] as f64));
    let o = |v: VecN<S, D>| {
        [Vector::<S, D>::x(&v), Vector::<S, D>::y(&v), Vector::<S, D>::z(&v), Vector::<S, D>::w(&v)].map(|x| fi(x.to_f64(), 1.0))
    };
    let p = <VecN<S, D> as Vector<S, D>>::from_xyz(a, b, c);
    let q: Vec2<S> = Vector::<S, D>::vec2(&p);
    json!({"x": o(<VecN<S, D> as Vector<S, D>>::from_x(a)), "xy": o(<VecN<S, D> as Vector<S, D>>::from_xy(a, b)), "xyz": o(p),
        "splat": o(<VecN<S, D> as Vector<S, D>>::splat(a)), "zero": o(<VecN<S, D> as Vector<S, D>>::zero()),
        "v2": [fi(q[0].to_f64(), 1.0), fi(q[1].to_f64(), 1.0)]})
}
fn back<V: IndexType + std::panic::RefUnwindSafe>(x: i64, bits: u32) -> Value {
    let r = std::panic::catch_unwind(|| V::new(x as usize).index() as i64);
    let m = <V as IndexType>::max().index() as u128 == (1u128 << bits) - 1;
    json!({"ok": r.is_ok(), "back": r.unwrap_or(-1), "max": m})
}
pub fn small(rng: &mut Rng) {
    let l: Vec<[i64; 4]> = (0..12).map(|i| [i % 4 + 1, rng.range(-50, 50), rng.range(-50, 50), rng.range(-50, 50)]).collect();
    run1(json!({"op": "make", "S": l, "a": [0], "st": "ok", "r": []}), || {
        json!(l
            .iter()
            .map(|s| match s[0] {
                1 => made::<f64, 1>(s),
                2 => made::<f64, 2>(s),
                3 => made::<f32, 3>(s),
                _ => made::<f64, 4>(s),
            })
            .collect::<Vec<_>>())
    });
    let l: Vec<[i64; 2]> = (0..12).map(|i| [*rng.pick(&[0, 1, 77, 254, 255, 256, 257, 65534, 65535, 65536, 1 << 20]), [8, 16, 32, 64][i % 4]]).collect();
    run1(json!({"op": "index", "S": l, "a": [0], "st": "ok", "r": []}), || {
        json!(l
            .iter()
            .map(|s| match s[1] {
                8 => back::<u8>(s[0], 8),
                16 => back::<u16>(s[0], 16),
                32 => back::<u32>(s[0], 32),
                _ => back::<usize>(s[0], 64),
            })
            .collect::<Vec<_>>())
    });
}
/// Products, lengths, angles and rearrangements of vectors with small integer components.
fn vectors_out(l: &[[i64; 8]]) -> Value {
    let i = |x: f64| fi(x, 1.0);
    let m = |x: f64| fi(x, 1000.0);
    fn same<const D: usize>(x: &[i64]) -> VecN<f64, D> {
        VecN::<f64, D>::from_fn(|k, _| x[k] as f64)
    }
    fn common<const D: usize>(a: &[i64], b: &[i64]) -> Value {
        let i = |x: f64| fi(x, 1.0);
        let m = |x: f64| fi(x, 1000.0);
        let (a, b) = (same::<D>(a), same::<D>(b));
        let t = Vector::angle_between(&a, b);
        let u = Vector::<f64, D>::normalize(&a);
        json!({"dot": i(Vector::dot(&a, &b)), "d2": i(Vector::distance_squared(&a, &b)), "l2": i(Vector::length_squared(&a)),
            "d": m(Vector::distance(&a, &b)), "l": m(Vector::length(&a)), "t": [m(t.cos()), m(t.sin())], "in": t.abs() < 3.15,
            "u": (0..D).map(|k| m(u[k])).collect::<Vec<_>>(), "zero": [HasZero::is_zero(&a), HasZero::is_zero(&(a - a)), HasZero::is_zero(&(a - b))],
            "about": [Vector::is_about(&a, &b, 1.5), Vector::is_about(&a, &b, 4.5), Vector::is_about(&a, &a, 0.5)]})
    }
    json!(l
        .iter()
        .map(|s| {
            let (x, y) = s.split_at(4);
            let (a, b) = (same::<2>(x), same::<2>(y));
            let v2 = |v: Vec2<f64>| [i(v[0]), i(v[1])];
            let v3 = |v: Vec3<f64>| [i(v[0]), i(v[1]), i(v[2])];
            let v4 = |v: VecN<f64, 4>| [i(v[0]), i(v[1]), i(v[2]), i(v[3])];
            let two = json!({"c": common::<2>(x, y), "perp": i(Vector2D::perp_dot(&a, &b)), "xy": v2(Vector2D::xy(&a)), "yx": v2(Vector2D::yx(&a)), "new": v2(<Vec2<f64> as Vector2D>::new(x[0] as f64, x[1] as f64))});
            let (a, b) = (same::<3>(x), same::<3>(y));
            let (t, r) = (Vector3D::tuple(&a), Vector3D::to_array(&a));
            let sp = Vector3D::spherical(&a);
            let three = json!({"c": common::<3>(x, y), "cross": v3(Vector3D::cross(&a, &b)), "normal": v3(Vector3D::normal(&a, b, Vec3::<f64>::new(1.0, 2.0, 3.0))),
                "sw": [v3(Vector3D::xyz(&a)), v3(Vector3D::xzy(&a)), v3(Vector3D::yxz(&a)), v3(Vector3D::yzx(&a)), v3(Vector3D::zxy(&a)), v3(Vector3D::zyx(&a)), [i(t.0), i(t.1), i(t.2)], r.map(i), v3(<Vec3<f64> as Vector3D>::new(t.0, t.1, t.2))],
                "sp": [m(sp.r()), m(sp.phi().cos()), m(sp.phi().sin()), m(sp.theta().cos())], "ins": sp.theta() >= 0.0 && sp.theta() < 3.15, "back": v3(sp.cartesian())});
            let a = same::<4>(x);
            let (t, r) = (Vector4D::tuple(&a), Vector4D::to_array(&a));
            let four = json!({"c": common::<4>(x, y), "sw": [v4(Vector4D::xyzw(&a)), [i(t.0), i(t.1), i(t.2), i(t.3)], r.map(i), v4(<VecN<f64, 4> as Vector4D>::new(t.0, t.1, t.2, t.3))]});
            json!({"two": two, "three": three, "four": four})
        })
        .collect::<Vec<_>>())
}
fn vectors(rng: &mut Rng) {
    let l: Vec<[i64; 8]> = (0..8)
        .map(|_| {
            let m = *rng.pick(&[2, 9]);
            let mut v = [0; 8];
            v.iter_mut().for_each(|x| *x = rng.range(-m, m));
            v
        })
        .collect();
    run1(json!({"op": "vector", "S": l, "a": [0], "st": "ok", "r": []}), || vectors_out(&l));
}
fn const_out<S: ScalarPlus>() -> Value {
    let t = |x: S| fi(x.to_f64(), 10.0);
    let nan = S::INFINITY - S::INFINITY;
    json!({"small": [t(S::ZERO), t(S::ONE), t(S::TWO), t(S::THREE), t(S::FOUR), t(S::FIVE), t(S::TEN), t(S::HALF)], "pi": fi(S::PI.to_f64(), 1e5), "phi": fi(S::PHI.to_f64(), 1e5),
        "inf": [S::INFINITY > f::<S>(1e30), S::NEG_INFINITY < f::<S>(-1e30), !Scalar::is_finite(S::INFINITY), Scalar::is_nan(nan), Scalar::is_nan(S::ONE), Scalar::is_finite(S::ONE)],
        "eps": S::ONE + S::EPS > S::ONE && S::ONE + S::EPS * S::HALF == S::ONE})
}

fn unit(rng: &mut Rng, q: i64) -> [i64; 3] {
    let mut v = match q {
        1 => [1, 0, 0],
        3 => *rng.pick(&[[1, 2, 2], [3, 0, 0]]),
        5 => *rng.pick(&[[3, 4, 0], [5, 0, 0]]),
        7 => *rng.pick(&[[2, 3, 6], [7, 0, 0]]),
        9 => *rng.pick(&[[1, 4, 8], [4, 4, 7], [3, 6, 6]]),
        _ => *rng.pick(&[[10, 5, 10], [2, 5, 14], [2, 10, 11], [9, 12, 0], [15, 0, 0]]),
    };
    rng.shuffle(&mut v);
    v.map(|x| if rng.chance(1, 2) { -x } else { x })
}
fn slerp_out<S: ScalarPlus>(a: [i64; 3], b: [i64; 3], q: i64) -> Value
where
    Vec3<S>: Vector3D<S = S>,
{
    let v = |x: [i64; 3]| Vec3::<S>::new(f::<S>(x[0] as f64), f::<S>(x[1] as f64), f::<S>(x[2] as f64)) / f::<S>(q as f64);
    json!((0..9)
        .map(|k| {
            let r = v(a).slerp(&v(b), f::<S>(k as f64 / 8.0));
            [fi(r[0].to_f64(), 1000.0), fi(r[1].to_f64(), 1000.0), fi(r[2].to_f64(), 1000.0)]
        })
        .collect::<Vec<_>>())
}
pub fn slerp(rng: &mut Rng) {
    let q = *rng.pick(&[1, 3, 5, 7, 9, 15, 15]);
    let (a, b) = (unit(rng, q), unit(rng, q));
    run1(json!({"op": "slerp", "a": a, "b": b, "q": q, "st": "ok", "r": []}), || slerp_out::<f64>(a, b, q));
}

pub fn run(rng: &mut Rng, path: Option<&str>, runs: usize) {
    run1(json!({"op": "const", "a": [64], "st": "ok", "r": {}}), const_out::<f64>);
    run1(json!({"op": "const", "a": [32], "st": "ok", "r": {}}), const_out::<f32>);
    if let Some(p) = path {
        for line in std::fs::read_to_string(p).unwrap_or_default().lines() {
            if let Ok(l) = serde_json::from_str::<Vec<[i64; 2]>>(line) {
                sum(rng, &l);
            }
        }
    }
    for i in 0..runs {
        let n = if i % 3 == 0 { rng.range(1, 400) } else { rng.range(1, 12) } as usize;
        let (num, den) = *rng.pick(&[(1, 2), (1, 8), (1, 100), (0, 1)]);
        let mut l: Vec<[i64; 2]> = (0..n).map(|_| [if rng.chance(1, 3) { rng.range(-7, 7) } else { rng.range(1, 7) }, rng.chance(num, den) as i64]).collect();
        match rng.below(4) {
            0 => l.sort_by_key(|x| x[1]),
            1 => l.sort_by_key(|x| -x[1]),
            2 => {
                // the large ones cancel
                let k: i64 = l.iter().filter(|x| x[1] == 1).map(|x| x[0]).sum();
                l.push([-k, 1]);
                if rng.chance(1, 2) {
                    l.swap(0, n)
                }
            }
            _ => {}
        }
        sum(rng, &l);
        numbers(rng);
        slerp(rng);
        if i % 8 == 0 {
            small(rng);
            vectors(rng)
        }
    }
}
