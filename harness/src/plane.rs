//! Plane and space predicates on integer coordinates, and the classification of sweep corners.
use crate::geo::*;
use crate::util::*;
use crate::backend::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

/// A float as an integer in units of 1/s; far outside of all valid values if it is none.
pub fn fi(x: f64, s: f64) -> i64 {
    let y = x * s;
    if !y.is_finite() || y.abs() > 9.0e8 {
        return -999_999_999;
    }
    y.round() as i64
}
/// An integer result that must be exact.
fn exact(x: f64, s: f64) -> i64 {
    let y = x * s;
    if y.is_finite() && y.abs() < 9.0e8 && y == y.round() {
        y as i64
    } else {
        -999_999_999
    }
}
fn p2<S: ScalarPlus>(p: P2, k: f64) -> GVec2<S> {
    GVec2::<S>::new(S::from((p[0] as f64 * k) as f32), S::from((p[1] as f64 * k) as f32))
}

fn polygon_out<S: ScalarPlus>(p: &[P2], qs: &[P2], k: f64) -> Value {
    let n = p.len();
    let vs: Vec<GVec2<S>> = p.iter().map(|q| p2::<S>(*q, k)).collect();
    let g = GPoly::<S>::from_points(&vs);
    let g2 = <GPoly<S> as Polygon<GVec2<S>>>::from_iter(vs.iter().copied());
    let kk = 1.0 / (k * k);
    let c = if n > 0 { Polygon::centroid(&g) } else { p2::<S>([0, 0], 1.0) };
    let same = g == g2 && g.points() == &vs[..];
    let conv: Vec<bool> = (0..n).map(|i| vs[i].convex(vs[(i + n - 1) % n], vs[(i + 1) % n])).collect();
    // points with doubled coordinates
    let con: Vec<bool> = qs.iter().map(|q| g.contains(&p2::<S>(*q, k / 2.0))).collect();
    let diag: Vec<Vec<bool>> = (0..n).map(|i| (0..n).map(|j| g.valid_diagonal(i, j)).collect()).collect();
    json!({"area": exact(g.signed_area().to_f64(), 2.0 * kk), "abs": exact(g.area().to_f64(), 2.0 * kk), "ccw": g.is_ccw(), "cw": g.is_cw(),
        "num": g.num_points(), "same": same, "cen": [fi(c.x().to_f64() / k, 100.0 * n.max(1) as f64), fi(c.y().to_f64() / k, 100.0 * n.max(1) as f64)],
        "conv": conv, "con": con, "diag": diag})
}
pub fn polygon(rng: &mut Rng, p: &[P2]) {
    let b = p.iter().flatten().fold((0, 0), |m, x| (m.0.min(*x), m.1.max(*x)));
    let mut qs: Vec<P2> = vec![];
    let all = 2 * (b.1 - b.0 + 1);
    if all <= 12 {
        for x in 2 * b.0 - 1..=2 * b.1 + 1 {
            for y in 2 * b.0 - 1..=2 * b.1 + 1 {
                qs.push([x, y])
            }
        }
    } else {
        for _ in 0..30 {
            // near a corner, at the height of one, on a side, or anywhere
            let c = *rng.pick(p);
            let d = *rng.pick(p);
            qs.push(match rng.below(4) {
                0 => [2 * c[0] + rng.range(-2, 2), 2 * c[1] + rng.range(-2, 2)],
                1 => [rng.range(2 * b.0 - 2, 2 * b.1 + 2), 2 * c[1]],
                2 => [c[0] + d[0], c[1] + d[1]],
                _ => [rng.range(2 * b.0, 2 * b.1), rng.range(2 * b.0, 2 * b.1)],
            });
        }
    }
    let single = rng.chance(1, 3);
    let k = *rng.pick(&[1.0, 1.0, 0.125, 32.0]);
    let mut v = json!({"op": "polygon", "P": p, "qs": qs, "a": [single as i64, (k * 1000.0) as i64], "st": "ok", "r": {}});
    let r = guard(&v, || crate::precision!(single, polygon_out(p, &qs, k)));
    match r {
        Ok(r) => v["r"] = r,
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}

fn seg_out<S: ScalarPlus>(l: &[[P2; 4]], k: f64) -> Value {
    let o: Vec<Value> = l
        .iter()
        .map(|s| {
            let a = LineSegment2D::new(p2::<S>(s[0], k), p2::<S>(s[1], k));
            let b = LineSegment2D::new(p2::<S>(s[2], k), p2::<S>(s[3], k));
            let eps = S::EPS;
            let f = |e: S| match a.intersect_line(&b, eps, e) {
                None => json!([]),
                Some(p) => json!([fi(p.x().to_f64() / k, 1000.0), fi(p.y().to_f64() / k, 1000.0)]),
            };
            let kk = 1.0 / (k * k);
            let (m, d) = (a.midpoint(), if s[0] == s[1] { p2::<S>([0, 0], 1.0) } else { a.direction() });
            json!({"touch": f(eps * S::from(8.0)), "open": f(eps * S::from(-8.0)), "len2": exact(a.length_squared().to_f64(), kk), "len": fi(a.length().to_f64() / k, 1000.0),
                "mid": [exact(m.x().to_f64(), 2.0 / k), exact(m.y().to_f64(), 2.0 / k)], "dir": [fi(d.x().to_f64(), 1000.0), fi(d.y().to_f64(), 1000.0)],
                "ends": a.start() == p2::<S>(s[0], k) && a.end() == p2::<S>(s[1], k)})
        })
        .collect();
    json!(o)
}
fn pt(rng: &mut Rng, m: i64) -> P2 {
    [rng.range(-m, m), rng.range(-m, m)]
}
pub fn segments(rng: &mut Rng) {
    let m = *rng.pick(&[2, 3, 6, 20]);
    let l: Vec<[P2; 4]> = (0..20)
        .map(|_| {
            let mut s = [pt(rng, m), pt(rng, m), pt(rng, m), pt(rng, m)];
            match rng.below(8) {
                0 => s[2] = s[0],
                1 => s[3] = s[1],
                2 => s[2] = [s[0][0] * 2 - s[1][0], s[0][1] * 2 - s[1][1]],
                3 => s[3] = [s[2][0] + s[1][0] - s[0][0], s[2][1] + s[1][1] - s[0][1]],
                4 => {
                    s[0] = [2 * s[0][0], 2 * s[0][1]];
                    s[1] = [2 * s[1][0], 2 * s[1][1]];
                    s[2] = [(s[0][0] + s[1][0]) / 2, (s[0][1] + s[1][1]) / 2]
                }
                _ => {}
            }
            s
        })
        .collect();
    let single = rng.chance(1, 3);
    let k = *rng.pick(&[1.0, 1.0, 0.125, 32.0]);
    let mut v = json!({"op": "segments", "S": l, "a": [single as i64, (k * 1000.0) as i64], "st": "ok", "r": []});
    match guard(&v, || crate::precision!(single, seg_out(&l, k))) {
        Ok(r) => v["r"] = r,
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}

fn points_out<S: ScalarPlus>(l: &[[P2; 4]], k: f64) -> Value {
    let kk = 1.0 / (k * k);
    let o: Vec<Value> = l
        .iter()
        .map(|s| {
            let [a, b, c, p] = [p2::<S>(s[0], k), p2::<S>(s[1], k), p2::<S>(s[2], k), p2::<S>(s[3], k)];
            let g = p.angle_tri(a, b);
            let h = Vector::<S, 2>::angle_between(&a, b);
            let w = |x: S| json!([fi(x.to_f64().sin(), 1000.0), fi(x.to_f64().cos(), 1000.0), x.to_f64().abs() <= 3.1416]);
            json!({"in": p.is_inside_triangle(a, b, c), "bary": exact(GVec2::<S>::barycentric_sign(a, b, p).to_f64(), kk),
                "perp": exact(a.perp_dot(&b).to_f64(), kk), "dot": exact(Vector::<S, 2>::dot(&a, &b).to_f64(), kk), "col": p.collinear(a, b, S::EPS),
                "d2": exact(Vector::<S, 2>::distance_squared(&a, &b).to_f64(), kk), "d": fi(Vector::<S, 2>::distance(&a, &b).to_f64() / k, 1000.0),
                "tri": w(g), "btw": w(h), "conv": a.convex(b, c)})
        })
        .collect();
    json!(o)
}
pub fn points(rng: &mut Rng) {
    let m = *rng.pick(&[2, 3, 6, 20]);
    let l: Vec<[P2; 4]> = (0..20)
        .map(|_| {
            let mut s = [pt(rng, m), pt(rng, m), pt(rng, m), pt(rng, m)];
            match rng.below(6) {
                0 => s[3] = [(s[0][0] + s[1][0] + s[2][0]) / 3, (s[0][1] + s[1][1] + s[2][1]) / 3],
                1 => s[3] = [(s[0][0] + s[1][0]) / 2, (s[0][1] + s[1][1]) / 2],
                2 => s[3] = [2 * s[1][0] - s[0][0], 2 * s[1][1] - s[0][1]],
                _ => {}
            }
            s
        })
        .collect();
    let single = rng.chance(1, 3);
    let k = *rng.pick(&[1.0, 1.0, 0.125, 32.0]);
    let mut v = json!({"op": "points", "S": l, "a": [single as i64, (k * 1000.0) as i64], "st": "ok", "r": []});
    match guard(&v, || crate::precision!(single, points_out(&l, k))) {
        Ok(r) => v["r"] = r,
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}

type P3 = [i64; 3];
fn q3<S: ScalarPlus>(p: P3, k: f64) -> GVec3<S> {
    let s = |x: i64| S::from((x as f64 * k) as f32);
    GVec3::<S>::new(s(p[0]), s(p[1]), s(p[2]))
}
fn space_out<S: ScalarPlus>(l: &[[P3; 3]], k: f64) -> Value {
    let kk = 1.0 / (k * k);
    let e3 = |v: GVec3<S>, s: f64| json!([exact(v.x().to_f64(), s), exact(v.y().to_f64(), s), exact(v.z().to_f64(), s)]);
    let r3 = |v: GVec3<S>, s: f64| json!([fi(v.x().to_f64(), s), fi(v.y().to_f64(), s), fi(v.z().to_f64(), s)]);
    let o: Vec<Value> = l
        .iter()
        .map(|s| {
            let [a, b, c] = [q3::<S>(s[0], k), q3::<S>(s[1], k), q3::<S>(s[2], k)];
            let n = Vector3D::normal(&a, b, c);
            let sp = Vector3D::spherical(&a);
            let unit = if s[0] == [0, 0, 0] { json!([0, 0, 0]) } else { r3(Vector::<S, 3>::normalize(&a), 1000.0) };
            let g = Vector::<S, 3>::angle_between(&a, b).to_f64();
            let sum = <GVec3<S> as Vector<S, 3>>::stable_sum([a, b, c].into_iter());
            let mean = <GVec3<S> as Vector<S, 3>>::stable_mean([a, b, c].into_iter());
            json!({"cross": e3(Vector3D::cross(&a, &b), kk), "dot": exact(Vector::<S, 3>::dot(&a, &b).to_f64(), kk), "normal": e3(n, kk),
                "len2": exact(Vector::<S, 3>::length_squared(&a).to_f64(), kk), "len": fi(Vector::<S, 3>::length(&a).to_f64() / k, 1000.0), "unit": unit,
                "d2": exact(Vector::<S, 3>::distance_squared(&a, &b).to_f64(), kk), "d": fi(Vector::<S, 3>::distance(&a, &b).to_f64() / k, 1000.0),
                "back": r3(sp.cartesian(), 1000.0 / k), "r": fi(sp.r().to_f64() / k, 1000.0),
                "theta": fi(sp.theta().to_f64().cos(), 1000.0), "phi": [fi(sp.phi().to_f64().sin(), 1000.0), fi(sp.phi().to_f64().cos(), 1000.0)],
                "cos": fi(g.cos(), 1000.0), "rng": g >= 0.0 && g <= 3.1416, "sum": e3(sum, 1.0 / k), "mean": r3(mean, 3000.0 / k),
                "swz": [e3(a.xyz(), 1.0 / k), e3(a.xzy(), 1.0 / k), e3(a.yxz(), 1.0 / k), e3(a.yzx(), 1.0 / k), e3(a.zxy(), 1.0 / k), e3(a.zyx(), 1.0 / k)]})
        })
        .collect();
    json!(o)
}
pub fn space(rng: &mut Rng) {
    let m = *rng.pick(&[1, 2, 3, 9, 20]);
    let p3 = |rng: &mut Rng| [rng.range(-m, m), rng.range(-m, m), rng.range(-m, m)];
    let l: Vec<[P3; 3]> = (0..20).map(|_| [p3(rng), p3(rng), p3(rng)]).collect();
    let single = rng.chance(1, 3);
    let k = *rng.pick(&[1.0, 1.0, 0.125, 32.0]);
    let mut v = json!({"op": "space", "S": l, "a": [single as i64, (k * 1000.0) as i64], "st": "ok", "r": []});
    match guard(&v, || crate::precision!(single, space_out(&l, k))) {
        Ok(r) => v["r"] = r,
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}

/// Predicates of faces in space: the corners in the order of the face.
pub fn face(rng: &mut Rng, p: &[P2]) {
    let f = FRAMES[rng.below(FRAMES.len())];
    let mut pos: Vec<P3> = p.iter().map(|q| [0, 1, 2].map(|c| q[0] * f[0][c] + q[1] * f[1][c])).collect();
    let o = *rng.pick(&[[0, 0, 0], [0, 0, 0], [5, -7, 3]]);
    pos.iter_mut().for_each(|x| (0..3).for_each(|c| x[c] += o[c]));
    if pos.len() > 3 && rng.chance(1, 6) {
        let i = rng.below(pos.len());
        pos[i][rng.below(3)] += rng.range(1, 3);
    }
    let k = *rng.pick(&[1.0, 1.0, 0.125, 32.0]);
    let mut v = json!({"op": "face", "X": pos, "a": [0, (k * 1000.0) as i64], "st": "ok", "r": {}});
    let r = guard(&v, || {
        let mut m = M3::new();
        let e = m.insert_polygon(pos.iter().map(|q| VP3::from_pos(q3::<Sc>(*q, k))));
        let tw = m.edge(e).twin(&m).id();
        let fc = m.edge(e).face(&m).or_else(|| m.edge(tw).face(&m)).unwrap();
        let x: Vec<[i64; 3]> = fc.vertices(&m).map(|v| { let p = v.pos(); [0, 1, 2].map(|c| (p[c] as f64 / k) as i64) }).collect();
        let flat = fc.is_planar(&m, 1e-6);
        let n = if flat { let n = Face3d::normal(fc, &m); json!([exact(n[0] as f64, 2.0 / (k * k)), exact(n[1] as f64, 2.0 / (k * k)), exact(n[2] as f64, 2.0 / (k * k))]) } else { json!([]) };
        let nondeg = flat && n != json!([0, 0, 0]);
        // the corners in the plane: twice the squared distances and the signed area are preserved
        let (w, poly) = if nondeg {
            let w: Vec<[i64; 2]> = fc.vertices_2d(&m).map(|(q, _)| [fi(q.x as f64 / k, 1000.0), fi(q.y as f64 / k, 1000.0)]).collect();
            (json!(w), fi(fc.as_polygon(&m).signed_area() as f64 / (k * k), 20.0))
        } else { (json!([]), 0) };
        let many = x.len() as f64;
        let cen = Face::centroid(fc, &m);
        let cen: Vec<i64> = (0..3).map(|c| fi(cen[c] as f64 * many / k, 100.0)).collect();
        let ecen: Vec<Value> = fc.edges(&m).map(|e| {
            let (q, a, b) = (e.centroid(&m), e.origin(&m).pos(), e.target(&m).pos());
            json!([0, 1, 2].map(|c| [exact(q[c] as f64, 2.0 / k), exact(a[c] as f64, 1.0 / k), exact(b[c] as f64, 1.0 / k)]))
        }).collect();
        let mcen = m.centroid();
        let mcen: Vec<i64> = (0..3).map(|c| fi(mcen[c] as f64 * many / k, 100.0)).collect();
        let naive = if nondeg && fc.is_convex(&m) { let n = fc.normal_naive(&m); json!([0, 1, 2].map(|c| exact(n[c] as f64, 1.0 / (k * k)))) } else { json!([]) };
        let ids = nondeg && fc.vertices_2d(&m).map(|q| q.1).collect::<Vec<_>>() == fc.vertices(&m).map(|v| v.id()).collect::<Vec<_>>();
        (x, json!({"convex": fc.is_convex(&m), "flat": flat, "normal": n, "self": if nondeg { fc.has_self_intersections(&m) as i64 } else { -1 },
            "simple": if nondeg { fc.is_simple(&m) as i64 } else { -1 }, "holes": fc.has_holes(), "cen": cen, "mcen": mcen, "ecen": ecen, "naive": naive, "flat2": w, "area": poly, "ids": ids}))
    });
    match r {
        Ok((x, r)) => {
            v["X"] = json!(x);
            v["r"] = r
        }
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}

/// The classification of every corner of a polygon.
pub fn corners(rng: &mut Rng, p: &[P2]) {
    let single = rng.chance(1, 3);
    // twice the tolerance, in units of the grid; 0: as in the sweep
    let t = if rng.chance(1, 3) { *rng.pick(&[1i64, 3, 5, 9, 25]) } else { 0 };
    let k = if t > 0 { 1.0 } else { *rng.pick(&[1.0, 1.0, 0.125, 32.0]) };
    let n = p.len();
    let mut v = json!({"op": "corners", "P": p, "t": t, "a": [single as i64, (k * 1000.0) as i64], "st": "ok", "r": []});
    let name = |t: VertexType| format!("{:?}", t);
    let r = guard(&v, || {
        (0..n)
            .map(|i| {
                let (a, b, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
                if single {
                    name(VertexType::classify::<u32, GVec2<f32>>(p2::<f32>(a, k), p2::<f32>(b, k), p2::<f32>(c, k), if t > 0 { t as f32 / 2.0 } else { f32::EPS * 1000.0 }))
                } else {
                    name(VertexType::classify::<usize, GVec2<Sc>>(p2::<Sc>(a, k), p2::<Sc>(b, k), p2::<Sc>(c, k), if t > 0 { t as Sc / 2.0 } else { Sc::EPS * 1000.0 }))
                }
            })
            .collect::<Vec<_>>()
    });
    match r {
        Ok(r) => v["r"] = json!(r),
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}

fn poly(rng: &mut Rng, i: usize, max_n: usize) -> Vec<P2> {
    if i % 5 == 4 {
        return shape(rng);
    }
    let n = rng.range(3, max_n as i64) as usize;
    let w = *rng.pick(&[3, 5, 8, 20, 60]);
    let h = if rng.chance(1, 4) { rng.range(2, 4) } else { w };
    random_poly(rng, n, w, h)
}
pub fn predicates(rng: &mut Rng, path: Option<&str>, runs: usize) {
    for mut p in scripts(path) {
        let k = rng.below(p.len());
        p.rotate_left(k);
        if rng.chance(1, 3) {
            p.reverse();
        }
        polygon(rng, &p);
        face(rng, &p);
    }
    for i in 0..runs {
        let mut p = poly(rng, i, 12);
        if rng.chance(1, 3) {
            p.reverse();
        }
        if rng.chance(1, 4) {
            p.iter_mut().for_each(|q| *q = [q[0] - 7, q[1] - 11]);
        }
        polygon(rng, &p);
        face(rng, &p);
        if i % 4 == 0 {
            // not simple at all
            let n = rng.range(1, 7);
            let p: Vec<P2> = (0..n).map(|_| pt(rng, 4)).collect();
            polygon(rng, &p);
            if n > 3 && p.iter().enumerate().all(|(i, q)| !p[..i].contains(q)) {
                face(rng, &p);
            }
        }
        segments(rng);
        points(rng);
        space(rng);
    }
}
/// Outlines that come as points: the zigzag and the random star.
pub fn outlines(rng: &mut Rng, runs: usize) {
    for i in 0..runs {
        let n = 4 + 2 * rng.below(if i % 4 == 0 { 20 } else { 6 });
        let h = (n / 2 / 2) as f64;
        let single = rng.chance(1, 2);
        let v = json!({"op": "zigzag", "n": n, "h": h as i64, "st": "ok", "P": []});
        fn z<S: ScalarPlus>(n: usize) -> Vec<[f64; 2]> {
            generate_zigzag::<GVec2<S>>(n).map(|q| [q.x().to_f64(), q.y().to_f64()]).collect()
        }
        done(v.clone(), "P", guard(&v, || {
            let q = crate::precision!(single, z(n));
            // in units of 1/h and 1
            json!(q.iter().map(|q| [fi((q[0] + 1.0) * h, 1000.0), fi(q[1], 1.0)]).collect::<Vec<_>>())
        }));
        let (lo, some) = (rng.range(3, 12) as usize, rng.below(6));
        let (ra, rb) = (*rng.pick(&[1, 2, 5]), rng.below(4));
        let v = json!({"op": "star", "lo": lo, "hi": lo + some, "r": [ra, ra + rb as i64], "st": "ok", "P": []});
        fn s<S: ScalarPlus>(lo: usize, hi: usize, a: f32, b: f32) -> Vec<[i64; 2]> {
            random_star::<GVec2<S>>(lo, hi, a, b).map(|q| [fi(q.x().to_f64(), 1000.0), fi(q.y().to_f64(), 1000.0)]).collect()
        }
        done(v.clone(), "P", guard(&v, || {
            let (a, b) = (ra as f32, (ra + rb as i64) as f32);
            json!(crate::precision!(single, s(lo, lo + some, a, b)))
        }));
    }
}
fn done(mut v: Value, key: &str, r: Result<Value, String>) {
    match r {
        Ok(r) => v[key] = r,
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}
pub fn classify(rng: &mut Rng, path: Option<&str>, runs: usize) {
    for mut p in scripts(path) {
        let k = rng.below(p.len());
        p.rotate_left(k);
        corners(rng, &p);
    }
    for i in 0..runs {
        let p = if i % 30 == 29 { large(rng) } else { poly(rng, i, 16) };
        corners(rng, &p);
    }
}
