//! Primitive constructors: builds the named shape and records the mesh and where its corners are.
use crate::mesh::{fxk, root_of, snapshot};
use crate::tm::*;
use crate::util::*;
use crate::backend::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

/// lengths are in units of 1/k; the sizes of whole shapes vary by powers of two through k
pub const K: i64 = 1024;
static SCALE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
fn k() -> f64 {
    1024.0 * 2f64.powi(SCALE.load(std::sync::atomic::Ordering::SeqCst) as i32)
}
type Pt = Vec<i64>;

fn vps(b: &[Pt]) -> Vec<TVP> {
    b.iter()
        .map(|p| TVP::from_pos(v3(p[0] as f64 / k(), p[1] as f64 / k(), p[2] as f64 / k())))
        .collect()
}

/// Builds `o` with parameters `a` (lengths times K) and point lists `b`; on top of `m` where there is such a form.
fn make(m: &mut Mesh, ins: bool, o: &str, a: &[i64], b: &[Vec<Pt>]) {
    let n = a.first().cloned().unwrap_or(0) as usize;
    let l = |i: usize| (a[i] as f64 / k()) as Sc;
    if ins {
        match o {
            "polygon" => drop(m.insert_polygon(vps(&b[0]))),
            "dihedron" => drop(m.insert_dihedron(vps(&b[0]))),
            "regular_star" => drop(m.insert_regular_star::<3>(l(1), l(2), n)),
            "prism" => drop(m.insert_prism(vps(&b[0]), l(1))),
            "antiprism" => drop(m.insert_antiprism(vps(&b[0]), l(1))),
            "antiprism_iter" => drop(m.insert_antiprism_iter(vps(&b[0]), vps(&b[1]))),
            "pyramid" => drop(m.insert_pyramid(vps(&b[0]), vps(&b[1])[0])),
            "frustum" => drop(m.insert_frustum(vps(&b[0]), vps(&b[1]), false)),
            x => panic!("no insert_{x}"),
        };
        return;
    }
    *m = match o {
        "polygon" => Mesh::polygon(vps(&b[0])),
        "dihedron" => Mesh::dihedron(vps(&b[0])),
        "regular_polygon" => Mesh::regular_polygon::<3>(l(1), n),
        "regular_star" => Mesh::regular_star::<3>(l(1), l(2), n),
        "prism" => Mesh::prism(vps(&b[0]), l(1)),
        "antiprism" => Mesh::antiprism(vps(&b[0]), l(1)),
        "antiprism_iter" => Mesh::antiprism_iter(vps(&b[0]), vps(&b[1])),
        "pyramid" => Mesh::pyramid(vps(&b[0]), vps(&b[1])[0]),
        "frustum" => Mesh::frustum(vps(&b[0]), vps(&b[1]), false),
        "cuboid" => Mesh::cuboid(V3::new(l(1), l(2), l(3))),
        "cube" => Mesh::cube(l(1)),
        "hexahedron" => Mesh::regular_hexahedron(l(1)),
        "regular_pyramid" => Mesh::regular_pyramid(l(1), l(2), n),
        "cone" => Mesh::cone(l(1), l(2), n),
        "tetrahedron" => Mesh::regular_tetrahedron(l(1)),
        "octahedron" => Mesh::regular_octahedron(l(1)),
        "regular_frustum" => Mesh::regular_frustum(l(1), l(2), l(3), n, false),
        "cylinder" => Mesh::cylinder(l(1), l(2), n),
        "regular_prism" => Mesh::regular_prism(l(1), l(2), n),
        "uniform_prism" => Mesh::uniform_prism(l(1), n),
        "regular_antiprism" => Mesh::regular_antiprism(l(1), l(2), n),
        "uniform_antiprism" => Mesh::uniform_antiprism(l(1), n),
        "uv_sphere" => Mesh::uv_sphere(l(2), n, a[1] as usize),
        "dodecahedron" => Mesh::dodecahedron(l(1)),
        "icosahedron" => Mesh::regular_icosahedron(l(1)),
        "geo_icosahedron" => Mesh::geodesic_icosahedron(l(1), n),
        "icosphere" => Mesh::icosphere(l(1), n),
        "geo_tetrahedron" => Mesh::geodesic_tetrahedron(l(1), n),
        "geo_octahedron" => Mesh::geodesic_octahedron(l(1), n),
        x => panic!("unknown shape {x}"),
    };
}

/// Positions of the vertices that are in `m` but not below `from`, relative to their centre, scaled to 200.
fn rel(m: &Mesh, old: &[V]) -> Value {
    let vs: Vec<(V, [f64; 3])> = m
        .vertices()
        .map(|v| {
            let p = v.pos::<Sc, 3, V3>();
            (v.id(), [p.x as f64, p.y as f64, p.z as f64])
        })
        .collect();
    let new: Vec<&[f64; 3]> = vs.iter().filter(|x| !old.contains(&x.0)).map(|x| &x.1).collect();
    let mut c = [0.0; 3];
    let mut s: f64 = 0.0;
    for i in 0..3 {
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for p in &new {
            c[i] += p[i] / new.len() as f64;
            lo = lo.min(p[i]);
            hi = hi.max(p[i]);
        }
        s = s.max(hi - lo);
    }
    let mut r: Vec<Value> = vec![];
    for (v, p) in vs {
        while r.len() < v as usize {
            r.push(json!([0, 0, 0]));
        }
        let q = |i: usize| {
            if old.contains(&v) { 0 } else { ((p[i] - c[i]) / s * 200.0).round() as i64 }
        };
        r.push(json!([q(0), q(1), q(2)]));
    }
    json!(r)
}

fn one(base: &Mesh, idx: u64, ins: bool, o: &str, a: &[i64], b: &[Vec<Pt>]) {
    let mut m = base.clone();
    let old: Vec<V> = if ins { base.vertices().map(|v| v.id()).collect() } else { vec![] };
    let mut ev = json!({"op":o,"a":a,"b":b,"p":idx,"st":"ok","m":{"nx":[]},"ins":ins as i64,"sc":SCALE.load(std::sync::atomic::Ordering::SeqCst),"c":[]});
    let k = k();
    let n = a.first().cloned().unwrap_or(0) as usize;
    let l = a.get(1).cloned().unwrap_or(0) as f64 / k;
    let ls = l as Sc;
    match guard(&ev, || {
        make(&mut m, ins, o, a, b);
        let mut s = snapshot(&m, false);
        s["fx"] = fxk(&m, k);
        s["rel"] = rel(&m, &old);
        // the helper functions that go with the shape
        let f = |x: Sc| (x as f64 * k).round() as i64;
        let c = match o {
            "regular_polygon" => vec![f(regular_polygon_sidelength(ls, n)), f((regular_polygon_area(ls, n) as f64 * k / 1024.0) as Sc)],
            "icosahedron" => vec![f(icosahedron_a2r(ls)), f(icosahedron_r2a(icosahedron_a2r(ls)))],
            _ => vec![],
        };
        (s, c)
    }) {
        Ok((s, c)) => {
            ev["m"] = s;
            ev["c"] = json!(c);
        }
        Err(e) => {
            ev["st"] = "panic".into();
            ev["msg"] = e.chars().take(160).collect::<String>().into();
        }
    }
    emit(&ev);
}

/// A star-shaped polygon with integer corners around the origin (often not convex).
pub fn lattice_polygon(rng: &mut Rng, n: usize, convex: bool) -> Vec<(i64, i64)> {
    loop {
        let mut v: Vec<(i64, i64)> = vec![];
        for i in 0..n {
            let phi = (i as f64 + rng.range(0, 60) as f64 / 100.0) * 2.0 * std::f64::consts::PI / n as f64;
            let r = if convex { 12.0 } else { rng.range(3, 12) as f64 };
            v.push(((r * phi.cos()).round() as i64, (r * phi.sin()).round() as i64));
        }
        let cr = |a: (i64, i64), b: (i64, i64), c: (i64, i64)| (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0);
        let ok = (0..n).all(|i| {
            let (a, b, c) = (v[i], v[(i + 1) % n], v[(i + 2) % n]);
            cr((0, 0), a, b) > 0 && cr(a, b, c) != 0 && (!convex || cr(a, b, c) > 0)
        });
        if ok {
            return v;
        }
    }
}

fn place(p: &[(i64, i64)], ax: usize, z: i64) -> Vec<Pt> {
    p.iter()
        .map(|&(x, y)| {
            let mut r = vec![0, 0, 0];
            r[ax] = z;
            r[(ax + 1) % 3] = x;
            r[(ax + 2) % 3] = y;
            r.iter().map(|c| c * K).collect()
        })
        .collect()
}

pub fn run(rng: &mut Rng, scripts: Option<&str>, n: usize) {
    let empty = Mesh::new();
    let e0 = root_of(&empty);
    if let Some(s) = scripts {
        for line in std::fs::read_to_string(s).unwrap_or_default().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            let a: Vec<i64> = v[1].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            let o = v[0].as_str().unwrap();
            one(&empty, e0, false, o, &a, &[]);
        }
    }
    // something that is already there
    let mut base = Mesh::new();
    base.add_vertex(vp(77));
    base.insert_polygon((0..4).map(|i| vpx(80 + i, i * 1000, i * i * 500, 9000)));
    base.insert_dihedron((0..3).map(|i| vpx(90 + i, i * 1000, i * i * 500, -9000)));
    let e1 = root_of(&base);
    let len = |rng: &mut Rng| rng.range(200, 5000);
    for i in 0..n {
        let sc = if i % 3 == 0 { rng.range(-12, 12) } else { 0 };
        SCALE.store(sc, std::sync::atomic::Ordering::SeqCst);
        // some with many corners
        let k = if i % 8 == 5 { rng.range(10, 60) } else { rng.range(3, 9) };
        let kind = if i % 8 == 5 { 7 + 4 * (i / 8 % 4 == 0) as usize + (i / 8 % 2) } else { rng.below(12) };
        let k = if kind == 11 { k / 2 + 3 } else { k };
        let convex = rng.chance(1, 2);
        let mut p = lattice_polygon(rng, k.min(9) as usize, convex);
        if rng.chance(1, 2) {
            p.reverse();
        }
        let ax = rng.below(3);
        let z = rng.range(-3, 3);
        let ins = rng.chance(1, 3);
        let (base, idx) = if ins { (&base, e1) } else { (&empty, e0) };
        let b = place(&p, ax, z);
        let h = rng.range(1, 12);
        let dz = if rng.chance(1, 2) { h } else { -h };
        let p2: Vec<(i64, i64)> = p.iter().map(|&(x, y)| (2 * x, 2 * y)).collect();
        match kind {
            0 => one(base, idx, ins, "polygon", &[k], &[b]),
            1 => one(base, idx, ins, "dihedron", &[k], &[b]),
            2 => one(base, idx, ins, "prism", &[k, h * 1024, ax as i64 + 1], &[b]),
            3 => one(base, idx, ins, "antiprism", &[k, h * 1024, ax as i64 + 1], &[b]),
            4 => one(base, idx, ins, "antiprism_iter", &[k], &[b, place(&p2, ax, z + dz)]),
            5 => one(base, idx, ins, "frustum", &[k], &[b, place(&p2, ax, z + dz)]),
            6 => one(base, idx, ins, "pyramid", &[k], &[b, place(&[(0, 0)], ax, z + dz)]),
            7 => {
                let (x, y) = (len(rng), len(rng));
                one(base, idx, ins, "regular_star", &[2 * k - 2, x, y], &[])
            }
            8 => {
                // (the centre of a flat one with many corners is too close to its base to tell the sides)
                let a = [k, len(rng), if k > 9 { rng.range(3000, 5000) } else { len(rng) }];
                for o in ["regular_pyramid", "cone", "cylinder", "regular_prism", "regular_antiprism", "uniform_prism", "uniform_antiprism", "regular_polygon"] {
                    one(&empty, e0, false, o, &a, &[]);
                }
            }
            9 => {
                let a = [1, len(rng), len(rng), len(rng)];
                for o in ["cuboid", "cube", "hexahedron", "tetrahedron", "octahedron", "dodecahedron", "icosahedron"] {
                    one(&empty, e0, false, o, &a, &[]);
                }
            }
            10 => {
                let a = [1 << rng.below(3), len(rng)];
                for o in ["geo_icosahedron", "geo_tetrahedron", "geo_octahedron", "icosphere"] {
                    if a[0] < 4 || o == "geo_tetrahedron" {
                        one(&empty, e0, false, o, &a, &[]);
                    }
                }
            }
            _ => {
                let a = if k > 9 { [rng.range(5, 12), rng.range(5, 12), len(rng)] } else { [rng.range(2, 6), rng.range(3, 8), len(rng)] };
                one(&empty, e0, false, "uv_sphere", &a, &[]);
                let a = [k, len(rng), len(rng), len(rng)];
                one(&empty, e0, false, "regular_frustum", &a, &[]);
            }
        }
    }
}
