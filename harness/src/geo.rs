//! Planar geometry: triangulation of polygons, by every algorithm and through every entry point.
use crate::util::*;
use crate::backend::*;
use procedural_modelling::prelude::*;
use serde_json::json;
use TriangulationAlgorithm as A;

pub type P2 = [i64; 2];

// ---------------------------------------------------------------- integer geometry (only to generate inputs)
pub fn orient(a: P2, b: P2, c: P2) -> i64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}
pub fn on_seg(p: P2, a: P2, b: P2) -> bool {
    orient(a, b, p) == 0 && (a[0] - p[0]) * (b[0] - p[0]) + (a[1] - p[1]) * (b[1] - p[1]) <= 0
}
fn meet(a: P2, b: P2, c: P2, d: P2) -> bool {
    let s = |x: i64| x.signum();
    s(orient(a, b, c)) * s(orient(a, b, d)) < 0 && s(orient(c, d, a)) * s(orient(c, d, b)) < 0
        || on_seg(a, c, d)
        || on_seg(b, c, d)
        || on_seg(c, a, b)
        || on_seg(d, a, b)
}
pub fn simple(p: &[P2]) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
        if b == c || on_seg(a, b, c) || on_seg(c, a, b) {
            return false;
        }
        for j in i + 2..n {
            if (j + 1) % n != i && meet(b, c, p[j], p[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}
pub fn area2(p: &[P2]) -> i64 {
    (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); a[0] * b[1] - a[1] * b[0] }).sum()
}
pub fn convex(p: &[P2]) -> bool {
    let n = p.len();
    let s = area2(p).signum();
    (0..n).all(|i| orient(p[(i + n - 1) % n], p[i], p[(i + 1) % n]).signum() == s)
}
/// A random simple counter-clockwise polygon with n corners in a w x h grid.
pub fn random_poly(rng: &mut Rng, n: usize, w: i64, h: i64) -> Vec<P2> {
    loop {
        let pt = |rng: &mut Rng| [rng.range(0, w), rng.range(0, h)];
        let mut p = vec![pt(rng), pt(rng), pt(rng)];
        if !simple(&p) {
            continue;
        }
        let mut fails = 0;
        while p.len() < n && fails < 400 {
            // a corner that leaves an edge for a new point; preferably inwards, to get reflex corners
            let i = rng.below(p.len());
            let q = if rng.chance(1, 2) { pt(rng) } else {
                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                let m = p[rng.below(p.len())];
                let x = |k: usize| ((a[k] + b[k] + m[k]) / 3 + rng_small(fails, k)).clamp(0, if k == 0 { w } else { h });
                [x(0), x(1)]
            };
            let mut c = p.clone();
            c.insert(i + 1, q);
            if simple(&c) {
                p = c;
            } else {
                fails += 1;
            }
        }
        if p.len() < n.min(5) {
            continue;
        }
        if area2(&p) < 0 {
            p.reverse();
        }
        let k = rng.below(p.len());
        p.rotate_left(k);
        return p;
    }
}
fn rng_small(f: usize, k: usize) -> i64 {
    ((f * 7 + k * 3) % 5) as i64 - 2
}
/// Shapes the random generator rarely hits: combs, spirals, zigzags, stars, staircases.
pub fn shape(rng: &mut Rng) -> Vec<P2> {
    let k = rng.range(2, 5);
    let mut p: Vec<P2> = match rng.below(5) {
        0 => {
            // comb
            let mut v = vec![[0, 0], [4 * k, 0]];
            for i in (0..k).rev() {
                v.push([4 * i + 4, rng.range(6, 12)]);
                v.push([4 * i + rng.range(1, 3), rng.range(1, 5)]);
            }
            v.push([0, rng.range(6, 12)]);
            v
        }
        1 => {
            // staircase
            let mut v = vec![[0, 0], [2 * k, 0]];
            for i in 0..k {
                v.push([2 * (k - i), 3 * (i + 1)]);
                v.push([2 * (k - i - 1), 3 * (i + 1)]);
            }
            v.pop();
            v.push([0, 3 * k]);
            v.dedup();
            v
        }
        2 => {
            // zigzag band
            let mut v: Vec<P2> = (0..=k).map(|i| [4 * i, (i % 2) * 6]).collect();
            v.extend((0..=k).rev().map(|i| [4 * i, (i % 2) * 6 + 5]));
            v
        }
        3 => {
            // star
            let r = rng.range(3, 12) as f64;
            let n = 2 * (k + 1);
            (0..n)
                .map(|i| {
                    let a = i as f64 / n as f64 * std::f64::consts::TAU + 0.1;
                    let l = if i % 2 == 0 { 20.0 } else { r };
                    [20 + (l * a.cos()).round() as i64, 20 + (l * a.sin()).round() as i64]
                })
                .collect()
        }
        _ => vec![[0, 0], [20, 0], [20, 20], [3, 20], [3, 5], [15, 5], [15, 15], [7, 15], [7, 9], [11, 9], [11, 12], [13, 12], [13, 7], [5, 7], [5, 17], [17, 17], [17, 3], [0, 3]],
    };
    if rng.chance(1, 2) {
        p.iter_mut().for_each(|q| *q = [q[1], q[0]]);
    }
    if rng.chance(1, 2) {
        p.iter_mut().for_each(|q| q[0] = -q[0]);
    }
    if rng.chance(1, 2) {
        p.iter_mut().for_each(|q| q[1] = -q[1]);
    }
    let (x, y) = (p.iter().map(|q| q[0]).min().unwrap(), p.iter().map(|q| q[1]).min().unwrap());
    p.iter_mut().for_each(|q| *q = [q[0] - x, q[1] - y]);
    if !simple(&p) {
        return random_poly(rng, 7, 9, 9);
    }
    if area2(&p) < 0 {
        p.reverse();
    }
    let k = rng.below(p.len());
    p.rotate_left(k);
    p
}

/// Polygons with many corners: random ones, wide combs, convex ones. No wider than 80.
pub fn large(rng: &mut Rng) -> Vec<P2> {
    let mut p: Vec<P2> = match rng.below(4) {
        0 => return { let n = 17 + rng.below(24); random_poly(rng, n, 45, 45) },
        1 => {
            let k = rng.range(6, 14);
            let mut v = vec![[0, 0], [4 * k, 0]];
            for i in (0..k).rev() {
                v.push([4 * i + 4, rng.range(16, 40)]);
                v.push([4 * i + rng.range(1, 3), rng.range(1, 12)]);
            }
            v.push([0, rng.range(16, 40)]);
            v
        }
        c => {
            // convex: grid points of a disc, sorted around the centre, without those that do not turn left
            let r = rng.range(18, 38);
            let mut v: Vec<P2> = vec![];
            for _ in 0..400 {
                let a = rng.range(0, 6283) as f64 / 1000.0;
                let l = r as f64 * if c == 2 { 1.0 } else { 0.8 + rng.below(21) as f64 / 100.0 };
                v.push([(l * a.cos()).round() as i64, (l * a.sin()).round() as i64]);
            }
            v.sort();
            v.dedup();
            let half = |v: &mut dyn Iterator<Item = &P2>| {
                let mut h: Vec<P2> = vec![];
                for q in v {
                    while h.len() > 1 && orient(h[h.len() - 2], h[h.len() - 1], *q) <= 0 {
                        h.pop();
                    }
                    h.push(*q);
                }
                h.pop();
                h
            };
            let mut h = half(&mut v.iter());
            h.extend(half(&mut v.iter().rev()));
            h.iter().map(|q| [q[0] + r, q[1] + r]).collect()
        }
    };
    if rng.chance(1, 2) {
        p.iter_mut().for_each(|q| *q = [q[1], q[0]]);
    }
    if area2(&p) < 0 {
        p.reverse();
    }
    let k = rng.below(p.len());
    p.rotate_left(k);
    if simple(&p) { p } else { random_poly(rng, 20, 45, 45) }
}

// ---------------------------------------------------------------- triangulating
pub const DIRECT: [&str; 7] = ["ear", "earr", "sweep", "sweepdyn", "sweepdel", "minw", "small"];
pub const FACE: [&str; 8] = ["Fan", "EarClipping", "Sweep", "SweepDynamic", "SweepDelaunay", "Delaunay", "MinWeight", "Auto"];
pub fn alg(s: &str) -> A {
    match s {
        "Fan" => A::Fan,
        "EarClipping" => A::EarClipping,
        "Sweep" => A::Sweep,
        "SweepDynamic" => A::SweepDynamic,
        "SweepDelaunay" => A::SweepDelaunay,
        "Delaunay" => A::Delaunay,
        "MinWeight" => A::MinWeight,
        _ => A::Auto,
    }
}

fn direct<S: ScalarPlus, V: IndexType>(name: &str, p: &[P2], ids: &[i64], k: f64, off: P2, pre: &[i64]) -> Vec<i64> {
    let mut buf: Vec<V> = pre.iter().map(|&i| V::new(i as usize)).collect();
    let at = |q: &P2| GVec2::<S>::new(S::from((q[0] + off[0]) as f32 * k as f32), S::from((q[1] + off[1]) as f32 * k as f32));
    let vs: Vec<IndexedVertex2D<V, GVec2<S>>> =
        p.iter().zip(ids).map(|(q, &i)| IndexedVertex2D::new(at(q), V::new(i as usize))).collect();
    {
        let mut tri = Triangulation::new(&mut buf);
        let mut meta = TesselationMeta::<V>::default();
        match name {
            "ear" | "earr" => {
                let l: Vec<(GVec2<S>, V)> = vs.iter().map(|v| (v.vec, v.index)).collect();
                ear_clipping_direct(&l, &mut tri, name == "earr")
            }
            "sweep" => sweep_line_triangulation::<LinearMonoTriangulator<V, GVec2<S>>>(&mut tri, &vs, &mut meta.sweep),
            "sweepdyn" => sweep_line_triangulation::<DynamicMonoTriangulator<V, GVec2<S>, GPoly<S>>>(&mut tri, &vs, &mut meta.sweep),
            "sweepdel" => sweep_line_triangulation::<DelaunayMonoTriangulator<V, GVec2<S>>>(&mut tri, &vs, &mut meta.sweep),
            "minw" => minweight_dynamic_direct::<V, GVec2<S>, GPoly<S>>(&vs, &mut tri),
            "small" => assert!(try_min_weight_small_direct::<V, GVec2<S>, GPoly<S>>(&vs, &mut tri)),
            x => panic!("no algorithm {x}"),
        }
    }
    buf.iter().map(|i| i.index() as i64).collect()
}

/// Integer frames (origin, two directions): where the plane of the polygon lies in space.
pub const FRAMES: [[[i64; 3]; 2]; 10] = [
    [[1, 0, 0], [0, 1, 0]],
    [[0, 1, 0], [1, 0, 0]],
    [[0, 0, 1], [1, 0, 0]],
    [[1, 0, 0], [0, 0, 1]],
    [[0, 1, 0], [0, 0, 1]],
    [[0, 0, 1], [0, 1, 0]],
    [[-1, 0, 0], [0, 1, 0]],
    [[2, -1, 2], [2, 2, -1]],
    [[2, 2, -1], [2, -1, 2]],
    [[3, 4, 0], [0, 0, -5]],
];
fn face(name: &str, p: &[P2], frame: usize, k: f64, off: P2, pre: &[i64], junk: usize) -> (Vec<P2>, Vec<i64>, Vec<i64>) {
    let f = FRAMES[frame];
    let mut m = M3::new();
    // earlier elements shift the ids
    for i in 0..junk {
        m.insert_polygon((0..3 + i).map(|j| {
            VP3::from_pos(v3(j as f64, (j * j) as f64, 50.0 + i as f64))
        }));
    }
    if junk > 1 {
        let id = m.face_ids().next().unwrap();
        m.remove_face(id);
    }
    let e = m.insert_polygon(p.iter().map(|q| {
        let q = [q[0] + off[0], q[1] + off[1]];
        let x = |c: usize| (q[0] * f[0][c] + q[1] * f[1][c]) as f64 * k;
        VP3::from_pos(v3(x(0), x(1), x(2)))
    }));
    let tw = m.edge(e).twin(&m).id();
    let fc = m.edge(e).face(&m).or_else(|| m.edge(tw).face(&m)).unwrap();
    let ids: Vec<i64> = fc.vertices(&m).map(|v| v.id() as i64).collect();
    // the corners in the order of the face
    let at: Vec<P2> = ids
        .iter()
        .map(|&i| {
            let w = m.vertex(i as I).pos();
            *p.iter()
                .find(|q| {
                    let q = [q[0] + off[0], q[1] + off[1]];
                    let x = |c: usize| (q[0] * f[0][c] + q[1] * f[1][c]) as f64 * k;
                    v3(x(0), x(1), x(2)) == w
                })
                .unwrap()
        })
        .collect();
    let mut buf: Vec<I> = pre.iter().map(|&i| i as I).collect();
    {
        let mut tri = Triangulation::new(&mut buf);
        let mut meta = TesselationMeta::default();
        if name == "delaunay" {
            delaunay_triangulation::<T3>(fc, &m, &mut tri)
        } else {
            triangulate_face::<T3>(fc, &m, &mut tri, alg(name), &mut meta)
        }
    }
    (at, ids, buf.iter().map(|&i| i as i64).collect())
}

/// One triangulation: the polygon, the ids of its corners, the buffer before and after.
pub fn tri_event(rng: &mut Rng, p: &[P2], name: &str) {
    tri_event_in(rng, p, name, None)
}
pub fn tri_event_in(rng: &mut Rng, p: &[P2], name: &str, placed: Option<(usize, f64, P2)>) {
    let n = p.len();
    let is_face = FACE.contains(&name) || name == "delaunay";
    if name == "Fan" && !convex(p) || name == "small" && n > 4 || name == "minw" && n < 4 {
        return;
    }
    let pre: Vec<i64> = (0..3 * rng.below(3)).map(|_| rng.range(0, 40)).collect();
    let k = *rng.pick(&[1.0, 1.0, 0.125, 16.0]);
    let off = *rng.pick(&[[0, 0], [0, 0], [-3, -5], [-40, 13]]);
    let mut v = json!({"op": name, "P": p, "pre": pre, "buf": pre, "ids": [], "a": [0, 0], "st": "ok"});
    let r = if is_face {
        let (fr, k, off) = placed.unwrap_or((rng.below(FRAMES.len()), k, off));
        let junk = rng.below(4);
        v["a"] = json!([1, fr, junk, (k * 1000.0) as i64, off[0], off[1]]);
        guard(&v, || face(name, p, fr, k, off, &pre, junk))
    } else {
        let ids: Vec<i64> = {
            let o = rng.range(0, 30);
            let mut i: Vec<i64> = (o..o + n as i64).collect();
            if rng.chance(1, 2) {
                rng.shuffle(&mut i);
            }
            i
        };
        let t = rng.below(3);
        v["a"] = json!([0, t, 0, (k * 1000.0) as i64, off[0], off[1]]);
        guard(&v, || {
            let b = match t {
                0 => direct::<Sc, usize>(name, p, &ids, k, off, &pre),
                1 => direct::<f32, u32>(name, p, &ids, k, off, &pre),
                _ => direct::<Sc, u16>(name, p, &ids, k, off, &pre),
            };
            (p.to_vec(), ids.clone(), b)
        })
    };
    match r {
        Ok((p, ids, buf)) => {
            v["P"] = json!(p);
            v["ids"] = json!(ids);
            v["buf"] = json!(buf);
        }
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.chars().take(120).collect::<String>().into();
        }
    }
    emit(&v);
}

pub fn scripts(path: Option<&str>) -> Vec<Vec<P2>> {
    let Some(p) = path else { return vec![] };
    std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}
/// Faces in tilted planes that once went wrong.
fn placed() -> Vec<(Vec<P2>, usize, f64, P2)> {
    vec![
        (vec![[2, 1], [2, 0], [3, 0], [3, 1], [3, 2], [1, 2], [3, 3], [1, 3], [0, 3], [0, 2], [1, 1], [0, 1], [0, 0], [1, 0]], 7, 16.0, [-3, -5]),
        (vec![[2, 3], [1, 3], [2, 2], [0, 3], [1, 2], [1, 1], [0, 2], [0, 1], [1, 0], [2, 0], [3, 0], [2, 1], [3, 1], [3, 2]], 7, 0.125, [0, 0]),
        (vec![[68, 72], [78, 82], [43, 37], [76, 75], [52, 45], [77, 73], [89, 89], [85, 90], [79, 81], [78, 84]], 8, 1.0, [0, 0]),
        (vec![[6, 7], [4, 4], [1, 2], [2, 3], [1, 4], [0, 8], [1, 8], [1, 7], [2, 8], [3, 4]], 8, 1.0, [-40, 13]),
        (vec![[3, 1], [3, 2], [0, 3], [0, 2], [0, 1], [1, 2], [0, 0], [1, 1], [2, 2], [1, 0], [3, 0], [2, 1]], 8, 16.0, [0, 0]),
    ]
}
/// Monotone from top to bottom: every height belongs to one of two chains; and sheared, so the chains intertwine.
pub fn monotone(rng: &mut Rng, n: usize) -> Vec<P2> {
    if rng.chance(1, 4) {
        return bow(rng, n);
    }
    for _ in 0..200 {
        let w = *rng.pick(&[3, 6, 12, 30]);
        let levels = rng.chance(1, 4);
        let (mut l, mut r) = (vec![], vec![]);
        let one = rng.chance(1, 5);
        let bend = rng.range(-2, 2);
        let (mut y, turn) = (0, rng.range(0, n as i64));
        for i in 0..n as i64 {
            let lean = bend * (y - turn).abs() / 2;
            let left = if i == 0 || i == n as i64 - 1 { true } else { !one && rng.chance(1, 2) };
            let x = if left { -rng.range(0, w) } else { rng.range(1, w + 1) };
            if left { l.push([lean + x, y]) } else { r.push([lean + x, y]) }
            y += if levels && rng.chance(1, 4) && i > 0 { 0 } else if rng.chance(1, 4) { rng.range(2, 5) } else { 1 };
        }
        // upwards on the right, downwards on the left
        let mut p = vec![l[0]];
        p.extend(r);
        p.extend(l[1..].iter().rev());
        if area2(&p) < 0 {
            p.reverse();
        }
        if simple(&p) && area2(&p) > 0 {
            let k = rng.below(p.len());
            p.rotate_left(k);
            return p;
        }
    }
    random_poly(rng, n, 12, 12)
}
/// A long chain bent inwards, with a few bumps, opposite to a short one.
pub fn bow(rng: &mut Rng, n: usize) -> Vec<P2> {
    for _ in 0..200 {
        let n = n as i64;
        // strictly reflex (k = 1), or with some corners on a line
        let (m, k) = (rng.range(-n / 3, n), if rng.chance(1, 2) { 1 } else { rng.range(2, 6) });
        let dents = rng.range(5, 30) as usize;
        let mut p: Vec<P2> = (0..n).map(|y| [(y - m) * (y - m) / -k - if rng.chance(1, dents) { rng.range(1, 6 + 2 * n) } else { 0 }, y]).collect();
        if rng.chance(1, 2) {
            // one near the end
            p[n as usize - 2 - rng.below(3)][0] -= rng.range(2, 3 * n);
        }
        let w = rng.range(1, 30);
        let ends = rng.chance(1, 2);
        let mut r: Vec<P2> = (0..rng.range(1, 4)).map(|_| [w + rng.range(0, 20), if ends { *rng.pick(&[-3, -1, n, n + 3]) } else { rng.range(-6, n + 6) }]).collect();
        r.sort_by_key(|q| -q[1]);
        p.extend(r);
        if rng.chance(1, 2) {
            p.iter_mut().for_each(|q| q[0] = -q[0]);
        }
        if rng.chance(1, 2) {
            p.iter_mut().for_each(|q| q[1] = -q[1]);
        }
        if area2(&p) < 0 {
            p.reverse();
        }
        let spread = p.iter().map(|q| q[0]).max().unwrap() - p.iter().map(|q| q[0]).min().unwrap();
        if spread <= 250 && simple(&p) && area2(&p) > 0 {
            return p;
        }
    }
    random_poly(rng, n, 12, 12)
}
/// Sweeps with a better triangulation of the monotone parts.
pub fn sweeps(rng: &mut Rng, path: Option<&str>, runs: usize) {
    const ALGS: [&str; 4] = ["sweepdyn", "sweepdel", "SweepDynamic", "SweepDelaunay"];
    for mut p in scripts(path) {
        let k = rng.below(p.len());
        p.rotate_left(k);
        for a in &ALGS[..if convex(&p) { 4 } else { 2 }] {
            tri_event(rng, &p, a);
        }
    }
    for i in 0..runs {
        let n = rng.range(5, if i % 40 == 38 { 50 } else if i % 10 == 9 { 28 } else { 13 }) as usize;
        let mut p = match i % 5 {
            0 => random_poly(rng, n, 8, 8),
            1 => if i % 20 == 1 { large(rng) } else { shape(rng) },
            2 => {
                // convex, as monotone any way: hull of random points
                let w = *rng.pick(&[5, 8, 20]);
                hull((0..n + 3).map(|_| [rng.range(0, w), rng.range(0, w)]).collect())
            }
            _ => monotone(rng, n),
        };
        if p.len() < 5 {
            p = monotone(rng, n);
        }
        for a in &ALGS[..if convex(&p) { 4 } else { 2 }] {
            tri_event(rng, &p, a);
        }
    }
}
/// The strictly convex corners of the hull, turning left.
fn hull(mut p: Vec<P2>) -> Vec<P2> {
    p.sort();
    p.dedup();
    let mut h: Vec<P2> = vec![];
    for pass in 0..2 {
        let base = h.len();
        for q in p.iter() {
            while h.len() >= base + 2 && orient(h[h.len() - 2], h[h.len() - 1], *q) <= 0 {
                h.pop();
            }
            h.push(*q);
        }
        h.pop();
        if pass == 0 {
            p.reverse();
        }
    }
    h
}
pub fn tri(rng: &mut Rng, path: Option<&str>, runs: usize, algs: &[&str], max_n: usize, big: i64, wide: usize) {
    for (p, fr, k, off) in placed() {
        for a in algs.iter().filter(|a| FACE.contains(a)) {
            tri_event_in(rng, &p, a, Some((fr, k, off)));
        }
    }
    for mut p in scripts(path) {
        for a in algs {
            let k = rng.below(p.len());
            p.rotate_left(k);
            tri_event(rng, &p, a);
        }
    }
    for i in 0..runs {
        let p = if wide > 0 && i % wide == wide - 1 {
            if rng.chance(1, 3) { let n = rng.range(12, 24) as usize; bow(rng, n) } else { large(rng) }
        } else if i % 16 == 11 && max_n > 8 {
            let n = rng.range(8, max_n as i64 + 16) as usize;
            bow(rng, n)
        } else if i % 6 == 5 {
            let p = shape(rng);
            if p.len() > max_n + 6 { continue }
            p
        } else {
            let n = rng.range(4, max_n as i64) as usize;
            let w = *rng.pick(&[3, 5, 8, 20, big]);
            let h = if rng.chance(1, 4) { rng.range(2, 4) } else { w };
            random_poly(rng, n, w, h)
        };
        for a in algs {
            tri_event(rng, &p, a);
        }
    }
}
