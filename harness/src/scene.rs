//! Whole meshes with planar faces in space: triangulation for export, flat and smooth normals.
use crate::geo::*;
use crate::plane::fi;
use crate::util::*;
use crate::backend::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

type P3 = [i64; 3];
type M = M3;
fn vp(p: P3, k: f64) -> VP3 {
    VP3::from_pos(v3(p[0] as f64 * k, p[1] as f64 * k, p[2] as f64 * k))
}
pub fn lift(p: &[P2], f: usize, o: P3) -> Vec<P3> {
    let f = FRAMES[f];
    p.iter().map(|q| [0, 1, 2].map(|c| q[0] * f[0][c] + q[1] * f[1][c] + o[c])).collect()
}
pub fn add(a: P3, b: P3) -> P3 {
    [0, 1, 2].map(|c| a[c] + b[c])
}
fn shift(d: P3, k: f64) -> A3 {
    <A3 as TransformTrait<Sc, 3>>::from_translation(v3(d[0] as f64 * k, d[1] as f64 * k, d[2] as f64 * k))
}
pub fn p3(rng: &mut Rng, m: i64) -> P3 {
    [rng.range(-m, m), rng.range(-m, m), rng.range(-m, m)]
}
/// Inserts a polygon and returns a boundary edge along it.
fn outline(m: &mut M, x: &[P3], k: f64) -> I {
    let e = m.insert_polygon(x.iter().map(|q| vp(*q, k)));
    if m.edge(e).is_boundary_self() { e } else { m.edge(e).twin(m).id() }
}
pub fn poly(rng: &mut Rng, most: i64) -> Vec<P2> {
    let n = rng.range(3, most) as usize;
    let w = *rng.pick(&[2, 3, 5]);
    let mut p = if rng.chance(1, 5) && most > 6 { shape(rng) } else { random_poly(rng, n, w, w) };
    if rng.chance(1, 3) {
        p.reverse()
    }
    p
}
fn part(rng: &mut Rng, m: &mut M, k: f64) {
    let o = if rng.chance(1, 2) { [0, 0, 0] } else { p3(rng, 4) };
    let f = rng.below(FRAMES.len());
    match rng.below(6) {
        0 | 1 => {
            let p = poly(rng, 9);
            outline(m, &lift(&p, f, o), k);
        }
        2 => {
            // a prism, possibly open
            let p = poly(rng, 7);
            let e = outline(m, &lift(&p, f, o), k);
            let f = FRAMES[f];
            let n = [f[0][1] * f[1][2] - f[0][2] * f[1][1], f[0][2] * f[1][0] - f[0][0] * f[1][2], f[0][0] * f[1][1] - f[0][1] * f[1][0]];
            let mut d = p3(rng, 2);
            while d[0] * n[0] + d[1] * n[1] + d[2] * n[2] == 0 {
                d = p3(rng, 2)
            }
            m.extrude(e, shift(d, k));
        }
        3 => {
            // a pyramid over a polygon whose middle the apex stands above
            let p = if rng.chance(1, 12) { let n = rng.range(10, 24) as usize; random_poly(rng, n, 8, 8) } else { poly(rng, 6) };
            let e = outline(m, &lift(&p, f, o), k);
            let f = FRAMES[f];
            let n = [f[0][1] * f[1][2] - f[0][2] * f[1][1], f[0][2] * f[1][0] - f[0][0] * f[1][2], f[0][0] * f[1][1] - f[0][1] * f[1][0]];
            let g = n.iter().map(|x| x.abs()).max().unwrap().max(1);
            let c = p[rng.below(p.len())];
            let a = add(add(lift(&[c], 0, [0, 0, 0])[0], o), n.map(|x| x * 2 / g));
            let apex = if rng.chance(1, 2) { a } else { add(o, p3(rng, 5)) };
            m.fill_hole_apex(e, vp(apex, k));
        }
        4 => {
            // a box that grows by pushing out faces
            let b = [rng.range(1, 4), rng.range(1, 4), rng.range(1, 4)];
            let x: Vec<P3> = vec![o, add(o, [b[0], 0, 0]), add(o, [b[0], b[1], 0]), add(o, [0, b[1], 0])];
            let e = outline(m, &x, k);
            m.extrude(e, shift([0, 0, if rng.chance(1, 2) { b[2] } else { -b[2] }], k));
            for _ in 0..rng.below(4) {
                let ids: Vec<I> = m.face_ids().collect();
                let f = *rng.pick(&ids);
                let closed = m.face(f).edges(m).all(|e| !e.is_boundary(m));
                if closed {
                    m.extrude_face(f, shift(p3(rng, 2), k));
                }
            }
        }
        _ => {
            // walls along an outline, open at the top
            let p = poly(rng, 6);
            let x = lift(&p, f, o);
            let e = outline(m, &x, k);
            let d = p3(rng, 3);
            let nx = m.edge(e).next_id();
            let ring: Vec<P3> = m.edges_back_from(nx).map(|h| { let p = h.origin(m).pos(); add([0, 1, 2].map(|c| (p[c] as f64 / k).round() as i64), d) }).collect();
            m.loft_polygon_back(e, 2, 2, ring.into_iter().map(|q| vp(q, k)));
        }
    }
    if rng.chance(1, 6) {
        m.add_vertex(vp(p3(rng, 9), k));
    }
    if rng.chance(1, 6) {
        m.add_isolated_edge_default(vp(p3(rng, 9), k), vp(p3(rng, 9), k));
    }
}
/// The box without some faces, as the specification asks for.
fn boxed(m: &mut M, b: P3, gone: &[usize], k: f64) {
    let x: Vec<P3> = vec![[0, 0, 0], [b[0], 0, 0], [b[0], b[1], 0], [0, b[1], 0]];
    let e = outline(m, &x, k);
    m.extrude(e, shift([0, 0, b[2]], k));
    let ids: Vec<I> = m.face_ids().collect();
    for g in gone {
        m.remove_face(ids[g - 1]);
    }
}

fn links(m: &M) -> String {
    let e: Vec<_> = m.edges().map(|h| (h.id(), h.next_id(), h.prev_id(), h.twin_id(), h.origin_id(), h.face_id())).collect();
    let f: Vec<_> = m.faces().map(|f| (f.id(), f.edge_id())).collect();
    let v: Vec<_> = m.vertices().map(|v| (v.id(), v.edge_id(m))).collect();
    format!("{e:?} {f:?} {v:?}")
}
/// The mesh as faces (cycles of vertices) and places.
fn seen(m: &M, k: f64) -> Value {
    let f: Vec<Vec<usize>> = m.faces().map(|f| f.vertices(m).map(|v| v.id() as usize + 1).collect()).collect();
    let p: Vec<[i64; 3]> = m.vertices().map(|v| { let p = v.pos(); [0, 1, 2].map(|c| fi(p[c] as f64 / k, 1.0)) }).collect();
    let ids: Vec<usize> = m.vertices().map(|v| v.id() as usize + 1).collect();
    json!({"F": f, "X": p, "V": ids})
}
fn exported(vs: &[VP3], k: f64) -> Value {
    let o: Vec<Value> = vs
        .iter()
        .map(|v| {
            let (p, n) = (HasPosition::pos(v), HasNormal::normal(v));
            let u: &V2 = HasUV::uv(v);
            let x = [0, 1, 2].map(|c| fi(p[c] as f64 / k, 1.0));
            let w = [0, 1, 2].map(|c| fi(n[c] as f64, 1000.0));
            json!({"id": fi(u[0] as f64, 1.0), "t": fi(u[1] as f64, 1.0), "x": x, "n": w})
        })
        .collect();
    json!(o)
}
fn tagged(m: &mut M, rng: &mut Rng) {
    m.vertices_mut().for_each(|v| {
        let i = v.id();
        v.payload_mut().set_uv(v2(i as f64 + 1.0, 7.0));
    });
    let n = p3(rng, 3);
    m.vertices_mut().for_each(|v| v.payload_mut().set_normal(v3(n[0] as f64, n[1] as f64, n[2] as f64)));
}
fn fails(v: &mut Value, e: String) {
    v["st"] = "panic".into();
    v["msg"] = e.chars().take(160).collect::<String>().into()
}
fn export(rng: &mut Rng, m: &M, w: &Value, k: f64) {
    let name = *rng.pick(&FACE);
    let flat = rng.chance(1, 2);
    let mut v = json!({"op": if flat { "flat" } else { "dense" }, "alg": name, "w": w, "st": "ok", "idx": [], "out": [], "same": true});
    let before = links(m);
    let r = guard(&v, || {
        let mut meta = TesselationMeta::default();
        let (i, vs) = if flat { m.triangulate_and_generate_flat_normals_post(alg(name), &mut meta) } else { m.triangulate(alg(name), &mut meta) };
        (i.iter().map(|&x| x as i64 + 1).collect::<Vec<_>>(), exported(&vs, k))
    });
    match r {
        Ok((i, o)) => {
            v["idx"] = json!(i);
            v["out"] = o;
            v["same"] = (links(m) == before).into();
        }
        Err(e) => fails(&mut v, e),
    }
    emit(&v);
}
fn smooth(m: &M, w: &Value, k: f64) {
    let mut v = json!({"op": "smooth", "alg": "", "w": w, "st": "ok", "idx": [], "out": [], "same": true, "again": true, "fn": []});
    let before = links(m);
    let r = guard(&v, || {
        let mut a = m.clone();
        a.generate_smooth_normals();
        let raw = |m: &M| format!("{:?}", m.vertices().map(|v| { let n: &V3 = v.payload().normal(); (n[0], n[1], n[2]) }).collect::<Vec<_>>());
        let first = raw(&a);
        let o = exported(&a.vertices().map(|v| v.payload().clone()).collect::<Vec<_>>(), k);
        let same = links(&a) == before;
        a.generate_smooth_normals();
        (o, same, raw(&a) == first)
    });
    match r {
        Ok((o, s, g)) => {
            v["out"] = o;
            v["same"] = s.into();
            v["again"] = g.into();
        }
        Err(e) => fails(&mut v, e),
    }
    emit(&v);
}
fn all(rng: &mut Rng, m: &mut M, k: f64, sm: bool, times: usize) {
    tagged(m, rng);
    let w = seen(m, k);
    for _ in 0..times {
        if sm { smooth(m, &w, k) } else { export(rng, m, &w, k) }
    }
}
pub fn run(rng: &mut Rng, path: Option<&str>, runs: usize, sm: bool) {
    let text = path.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    for line in text.lines() {
        let Ok(o) = serde_json::from_str::<Value>(line) else { continue };
        if !o.is_object() {
            continue;
        }
        let b: P3 = serde_json::from_value(o["b"].clone()).unwrap();
        let gone: Vec<usize> = serde_json::from_value(o["gone"].clone()).unwrap();
        let mut m = M::new();
        boxed(&mut m, b, &gone, 1.0);
        all(rng, &mut m, 1.0, sm, if sm { 1 } else { 3 });
    }
    for _ in 0..runs {
        let k = *rng.pick(&[1.0, 1.0, 0.125, 16.0]);
        let mut m = M::new();
        for _ in 0..1 + rng.below(3) {
            part(rng, &mut m, k);
        }
        if rng.chance(1, 3) {
            let ids: Vec<I> = m.face_ids().collect();
            for f in ids {
                if rng.chance(1, 4) {
                    m.remove_face(f);
                }
            }
            if rng.chance(1, 2) {
                part(rng, &mut m, k);
            }
        }
        all(rng, &mut m, k, sm, if sm { 1 } else { 3 });
    }
}
