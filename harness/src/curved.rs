//! Meshes with curved edges in the plane: building, flattening, conversion, comparison.
use crate::mesh::{ntags, op, random_op_on, wheel_op, view_of, Op};
use crate::obs::fresh;
use crate::tm::*;
use crate::util::*;
use crate::backend::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

pub type MT = T2;
pub type MC = M2;
pub type P2 = V2;

/// distinct points on a 64 x 64 grid; the tag is the payload the specification sees
pub fn grid(tag: i64) -> (i64, i64) {
    let t = tag % 4000;
    (t % 61 + t / 3721, (t * 37 + (t / 61) * 11) % 61)
}
pub fn code(x: f64, y: f64) -> i64 {
    if x.fract() == 0.0 && y.fract() == 0.0 && x.abs() < 1e4 && y.abs() < 1e4 {
        100_000 + x as i64 * 100 + y as i64
    } else {
        5
    }
}
fn vp2(tag: i64) -> VP2 {
    let (x, y) = grid(tag);
    VP2::from_pos(v2(x as f64, y as f64))
}
pub fn project_c(m: &MC) -> Value {
    project_with::<MT>(m, |_| 0, |v| code(v.pos().x as f64, v.pos().y as f64), |_| 0)
}

pub fn exec(m: &mut MC, o: &Op, t: &[i64]) {
    let a = &o.a;
    let v = |i: usize| (a[i] - 1) as I;
    let e = v;
    let d = || Default::default();
    let vps = |t: &[i64]| t.iter().map(|&x| vp2(x)).collect::<Vec<_>>();
    match o.name.as_str() {
        "addv" => {
            m.add_vertex(vp2(t[0]));
        }
        "iso" | "isod" => {
            m.add_isolated_edge_default(vp2(t[0]), vp2(t[t.len() / 2]));
        }
        "via" | "viad" => {
            m.add_vertex_via_edge_default(e(0), e(1), vp2(t[0]));
        }
        "viav" | "viavd" => {
            m.add_vertex_via_vertex_default(v(0), vp2(t[0]));
        }
        "btw" => {
            m.insert_edge_between(v(0), d(), v(1), d());
        }
        "ins" | "insnc" => {
            m.insert_edge(e(0), d(), e(1), d());
        }
        "close" | "closed" => {
            m.close_face(e(0), d(), e(1), d(), Default::default(), a[2] == 1);
        }
        "closev" | "closevd" => {
            m.close_face_vertices(v(0), d(), v(1), d(), v(2), Default::default(), a[3] == 1);
        }
        "hole" => {
            m.close_hole(e(0), Default::default(), a[1] == 1);
        }
        "holed" => {
            m.close_hole_default(e(0));
        }
        "rmf" => {
            m.remove_face(v(0));
        }
        "ive" => {
            let it: Vec<_> = t.chunks(3).map(|c| (d(), d(), vp2(c[2]))).collect();
            m.insert_vertices_into_edge(e(0), it.into_iter());
        }
        "path" => {
            m.insert_path(vps(t));
        }
        "loop" => {
            m.insert_loop(vps(t));
        }
        "polygon" => {
            m.insert_polygon(vps(t));
        }
        "dihedron" => {
            m.insert_dihedron(vps(t));
        }
        "sub" => {
            m.subdivide_unsafe(e(0), vp2(t[0]), d());
        }
        "fix" => {
            m.subdivide_unsafe_try_fixup(e(0), d());
        }
        "flip" => {
            m.flip();
        }
        "flipe" => {
            m.flip_edge(e(0));
        }
        "clear" => {
            m.clear();
        }
        x => panic!("unknown operation {x}"),
    }
}

#[derive(Clone)]
pub struct Node {
    pub mesh: MC,
    pub tag: i64,
}
pub fn step(n: &Node, o: &Op) -> Option<Node> {
    let k = ntags(o) as i64;
    let t: Vec<i64> = (1..=k).map(|i| n.tag + i).collect();
    let mut mesh = n.mesh.clone();
    guard(&json!({"op":"skip"}), || exec(&mut mesh, o, &t)).ok()?;
    Some(Node { mesh, tag: n.tag + k })
}

/// Feeds every mesh of the replayed behaviours and of random histories to `f`.
pub fn all(rng: &mut Rng, scripts: Option<&str>, runs: usize, max_e: usize, f: &mut dyn FnMut(&MC, &mut Rng)) {
    fn go(n: &Node, t: &Trie, rng: &mut Rng, f: &mut dyn FnMut(&MC, &mut Rng)) {
        for (o, k) in t.kids.values() {
            let name = o[0].as_str().unwrap();
            let mut a: Vec<i64> = o.as_array().unwrap()[1..].iter().map(|x| x.as_i64().unwrap()).collect();
            let mut name = name;
            let w = view_of::<MT>(&n.mesh);
            if name == "rmfe" {
                match w.fc.get(a[0] as usize) {
                    Some(&x) if x > 0 => (name, a) = ("rmf", vec![x]),
                    _ => continue,
                }
            }
            if name != "fix" && !w.sane() {
                continue;
            }
            if let Some(x) = step(n, &op(name, &a)) {
                if name != "sub" {
                    f(&x.mesh, rng);
                }
                go(&x, k, rng, f);
            }
        }
    }
    if let Some(p) = scripts {
        go(&Node { mesh: MC::new(), tag: 0 }, &Trie::read(p), rng, f);
    }
    for r in 0..runs + runs / 40 + 1 {
        let mut n = Node { mesh: MC::new(), tag: 0 };
        let large = r >= runs;
        if large {
            let k = rng.range(6, 24) as usize;
            for _ in 0..2 * k {
                let Some(o) = wheel_op(&view_of::<MT>(&n.mesh), k, rng) else { break };
                let Some(x) = step(&n, &o) else { break };
                n = x;
            }
            f(&n.mesh, rng);
        }
        for _ in 0..if large { 6 } else { 30 } {
            let w = view_of::<MT>(&n.mesh);
            if !w.sane() {
                break;
            }
            let Some(o) = random_op_on(&w, rng, max_e) else { break };
            let Some(x) = step(&n, &o) else { break };
            n = x;
            if o.name == "sub" {
                let t = view_of::<MT>(&n.mesh).tw[o.a[0] as usize];
                let Some(x) = step(&n, &op("fix", &[t])) else { break };
                n = x;
            }
            f(&n.mesh, rng);
        }
    }
}

pub fn fix(x: f64, k: f64) -> i64 {
    (x * k).round().max(-1e9).min(1e9) as i64
}
fn fixed(p: &P2, k: f64) -> Value {
    json!([fix(p.x as f64, k), fix(p.y as f64, k)])
}
pub fn by_id<V: IndexType>(it: impl Iterator<Item = (V, Value)>, none: Value) -> Value {
    let mut r: Vec<Value> = vec![];
    for (i, v) in it {
        let i = i.index();
        while r.len() <= i {
            r.push(none.clone());
        }
        r[i] = v;
    }
    json!(r)
}
pub const FS: f64 = 64.0;
fn pos_c(m: &MC) -> Value {
    by_id(m.vertices().map(|v| (v.id(), fixed(&v.pos::<Sc, 2, P2>(), FS))), json!([0, 0]))
}
/// control points of every half-edge
fn curves(m: &MC) -> Value {
    let f = |c: CurvedEdgeType<2, MT>| match c {
        CurvedEdgeType::Linear => json!([]),
        CurvedEdgeType::QuadraticBezier(c) => json!([fixed(&c, FS)]),
        CurvedEdgeType::CubicBezier(c, d) => json!([fixed(&c, FS), fixed(&d, FS)]),
    };
    by_id(m.edges().map(|e| (e.id(), f(e.curve_type()))), json!([]))
}

/// Gives some edges a curve, on one of their halves.
pub fn bend(m: &mut MC, r: &mut Rng) {
    let w = view_of::<MT>(m);
    let p = r.range(1, 3) as usize;
    for &e in &w.es {
        let t = w.tw[e as usize];
        if e > t || !r.chance(p, 4) {
            continue;
        }
        let h = if r.chance(1, 2) { e } else { t } as I - 1;
        let at = |m: &MC, v: i64| m.vertex((v - 1) as I).pos::<Sc, 2, P2>();
        let (a, b) = (at(m, w.og[h as usize + 1]), at(m, w.tgt(h as i64 + 1)));
        let free = |r: &mut Rng| v2(r.range(0, 60) as f64, r.range(0, 60) as f64);
        let near = |r: &mut Rng, s: f64| {
            let q = a + (b - a) * s as Sc;
            v2(q.x.round() as f64 + r.range(-2, 2) as f64, q.y.round() as f64 + r.range(-2, 2) as f64)
        };
        let c = match r.below(8) {
            0 => CurvedEdgeType::QuadraticBezier(free(r)),
            1 => CurvedEdgeType::QuadraticBezier(near(r, 0.5)),
            2 => CurvedEdgeType::CubicBezier(free(r), free(r)),
            3 | 4 => {
                // point symmetric to the middle of the chord: an s which crosses its chord in the middle
                let c = free(r);
                CurvedEdgeType::CubicBezier(c, a + b - c)
            }
            5 => CurvedEdgeType::CubicBezier(near(r, 0.25), near(r, 0.75)),
            6 => {
                let k = r.below(3) as Sc / 2.0;
                CurvedEdgeType::QuadraticBezier(a + (b - a) * k)
            }
            _ => {
                let c = free(r);
                CurvedEdgeType::CubicBezier(c, c)
            }
        };
        m.edge_mut(h).set_curve_type(c);
    }
}

/// Flattens a bent copy and records it together with the mesh before.
pub fn flatten(m: &MC, r: &mut Rng) {
    let st = project_c(m);
    if !fresh(&st.to_string()) || m.num_vertices() < 2 || r.chance(3, 5) {
        return;
    }
    let mut a = m.clone();
    if m.num_edges() > 0 && m.num_edges() < 9 && r.chance(1, 10) {
        let mut b = m.clone();
        enlarge(&mut b, r);
        flatten_as(&b, r, 48, 512);
    }
    bend(&mut a, r);
    let tol = *r.pick(&[16i64, 48, 64, 200, 640]);
    flatten_as(&a, r, tol, 64);
}
/// Makes the mesh large (compared with the error) and gives one edge a curve.
fn enlarge(m: &mut MC, r: &mut Rng) {
    let mut b = m.clone();
    bend(&mut b, r);
    const K: Sc = 256.0;
    let ids: Vec<I> = m.vertices().map(|v| v.id()).collect();
    for v in ids {
        let p = m.vertex(v).pos::<Sc, 2, P2>() * K;
        m.vertex_mut(v).payload_mut().set_pos(p);
    }
    let Some(e) = b.edges().find(|e| !matches!(e.curve_type(), CurvedEdgeType::Linear)) else { return };
    let c = match e.curve_type() {
        CurvedEdgeType::Linear => CurvedEdgeType::Linear,
        CurvedEdgeType::QuadraticBezier(c) => CurvedEdgeType::QuadraticBezier(c * K),
        CurvedEdgeType::CubicBezier(c, d) => CurvedEdgeType::CubicBezier(c * K, d * K),
    };
    m.edge_mut(e.id()).set_curve_type(c);
}
fn flatten_as(a: &MC, r: &mut Rng, tol: i64, samples: i64) {
    let n = *r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 10, 12, 16, 20, 31, 33, 48, 64]);
    let mut ev = json!({"op":"flatten","p":0,"N":samples,"st":"ok","m":project_c(a),"x":pos_c(a),"cv":curves(a),"tol":tol,"n":n,"b":{},"y":[],"w":{}});
    let was = guard(&ev, || a.has_curved_edges()).unwrap_or(false);
    let mut b = a.clone();
    match guard(&ev, || {
        let u = by_id(
            a.edges().map(|e| (e.id(), json!(e.flatten_uniform(n, a).iter().map(|p| fixed(p, FS)).collect::<Vec<_>>()))),
            json!([]),
        );
        b.flatten_curved_edges(tol as Sc / FS as Sc);
        (project_c(&b), pos_c(&b), curves(&b), u, b.has_curved_edges())
    }) {
        Ok((s, y, cv, u, now)) => {
            ev["b"] = s;
            ev["y"] = y;
            ev["w"] = json!({"cv": cv, "uni": u, "was": was, "now": now});
        }
        Err(x) => fail(&mut ev, x),
    }
    emit(&ev);
}
pub fn fail(ev: &mut Value, msg: String) {
    ev["st"] = "panic".into();
    ev["msg"] = msg.chars().take(160).collect::<String>().into();
}

/// Converts (possibly bent) meshes to n dimensions.
pub fn convert(m: &MC, r: &mut Rng) {
    if !fresh(&project_c(m).to_string()) {
        return;
    }
    let mut a = m.clone();
    if r.chance(1, 3) {
        bend(&mut a, r);
    }
    let d = [2, 3, 3, 4, 7][r.below(5)];
    let tol = *r.pick(&[0.5, 3.0]);
    let mut f = a.clone();
    if guard(&json!({"op":"skip"}), || {
        f.flatten_curved_edges(tol as Sc);
    })
    .is_err()
    {
        return;
    }
    let d = to_d(d);
    let mut ev = json!({"op":"conv","p":0,"st":"ok","d":d,"m":project_c(&f),"x":pos_c(&f),"b":{},"y":[]});
    match guard(&ev, || lifted(&a, d, tol)) {
        Ok((s, y)) => {
            ev["b"] = s;
            ev["y"] = y;
        }
        Err(x) => fail(&mut ev, x),
    }
    emit(&ev);
}

/// Compares a bent mesh with copies of it that were changed in one place.
pub fn iso(m: &MC, r: &mut Rng) {
    if m.num_vertices() < 2 || m.num_edges() > 14 || !fresh(&project_c(m).to_string()) {
        return;
    }
    let mut a = m.clone();
    bend(&mut a, r);
    for kind in 0..6 {
        if kind > 0 && r.chance(1, 2) {
            continue;
        }
        let mut b = a.clone();
        let w = view_of::<MT>(&b);
        let v = (*r.pick(&w.vs) - 1) as I;
        let far = if r.chance(1, 2) { 0.25 } else { 1.0 };
        let shift = match r.below(4) { 0 => v2(far, 0.0), 1 => v2(-far, 0.25), 2 => v2(0.0, far), _ => v2(0.25, -far) };
        match kind {
            0 => {}
            1 => {
                let p = b.vertex(v).pos::<Sc, 2, P2>() + shift;
                b.vertex_mut(v).payload_mut().set_pos(p);
            }
            2 | 3 | 4 => {
                // one control point, or another kind of curve
                let es: Vec<I> = b.edges().filter(|e| !matches!(e.curve_type(), CurvedEdgeType::Linear)).map(|e| e.id()).collect();
                if es.is_empty() {
                    continue;
                }
                let e = *r.pick(&es);
                let c = match (b.edge(e).curve_type(), kind) {
                    (CurvedEdgeType::QuadraticBezier(c), 2 | 3) => CurvedEdgeType::QuadraticBezier(c + shift),
                    (CurvedEdgeType::CubicBezier(c, d), 2) => CurvedEdgeType::CubicBezier(c + shift, d),
                    (CurvedEdgeType::CubicBezier(c, d), 3) => CurvedEdgeType::CubicBezier(c, d + shift),
                    (CurvedEdgeType::QuadraticBezier(c), _) => if far > 0.5 { CurvedEdgeType::CubicBezier(c, c) } else { CurvedEdgeType::Linear },
                    (CurvedEdgeType::CubicBezier(c, d), _) => if far > 0.5 { CurvedEdgeType::CubicBezier(d, c) } else { CurvedEdgeType::QuadraticBezier(c) },
                    (c, _) => c,
                };
                b.edge_mut(e).set_curve_type(c);
            }
            _ => {
                let Some(o) = random_op_on(&w, r, 40) else { continue };
                if o.name == "sub" || o.name == "fix" {
                    continue;
                }
                match step(&Node { mesh: b, tag: 3000 }, &o) {
                    Some(n) => b = n.mesh,
                    None => continue,
                }
            }
        }
        if !view_of::<MT>(&b).sane() {
            continue;
        }
        let pos = |m: &MC| by_id(m.vertices().map(|v| (v.id(), fixed(&v.pos::<Sc, 2, P2>(), 8.0))), json!([0, 0]));
        let cv = |m: &MC| {
            by_id(m.edges().map(|e| (e.id(), match e.curve_type() {
                CurvedEdgeType::Linear => json!([]),
                CurvedEdgeType::QuadraticBezier(c) => json!([fixed(&c, 8.0)]),
                CurvedEdgeType::CubicBezier(c, d) => json!([fixed(&c, 8.0), fixed(&d, 8.0)]),
            })), json!([]))
        };
        let mut ev = json!({"op":"isoc","p":0,"st":"ok","m":project_c(&a),"b":project_c(&b),"x":pos(&a),"y":pos(&b),"cv":cv(&a),"cw":cv(&b),"w":{}});
        match guard(&ev, || {
            json!({
                "tc": crate::algebra::code2(a.is_trivially_isomorphic_pos_curved::<2>(&b, 0.5)),
                "tcr": crate::algebra::code2(b.is_trivially_isomorphic_pos_curved::<2>(&a, 0.5)),
                "tp": crate::algebra::code2(a.is_trivially_isomorphic_pos::<2, Sc, P2>(&b, 0.5)),
            })
        }) {
            Ok(w) => ev["w"] = w,
            Err(x) => fail(&mut ev, x),
        }
        emit(&ev);
    }
}
