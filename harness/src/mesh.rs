//! Executes building operations on the real mesh (random driver and replay of specification behaviours)
//! and records one event per operation: name, arguments, payload tags, results and the projected state.
use crate::obs::{mode, visit, BUILD};
use crate::tm::*;
use crate::util::*;
use crate::backend::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub a: Vec<i64>,
}
pub fn op(name: &str, a: &[i64]) -> Op {
    Op { name: name.into(), a: a.to_vec() }
}

fn e_(x: i64) -> E {
    (x - 1) as E
}
fn v_(x: i64) -> V {
    (x - 1) as V
}
fn f_(x: i64) -> F {
    (x - 1) as F
}

pub struct Tagger(pub i64);
impl Tagger {
    fn take(&mut self, n: usize) -> Vec<i64> {
        let r = (1..=n as i64).map(|i| self.0 + i).collect();
        self.0 += n as i64;
        r
    }
}

pub fn ntags(o: &Op) -> usize {
    let k = |i: usize| o.a[i] as usize;
    match o.name.as_str() {
        "addv" | "viad" | "viavd" | "apex" => 1,
        "iso" => 4,
        "isod" => 2,
        "via" | "viav" => 3,
        "btw" | "ins" | "insnc" => 2,
        "close" | "closev" => 3,
        "hole" => 1,
        "ive" => 3 * k(1),
        "path" | "loop" | "polygon" | "dihedron" => k(0),
        "sub" => 2,
        "fix" => 1,
        "ltb" | "lt" => k(2),
        "ltbc" | "ltc" => k(1),
        "lpb" | "lp" => k(3),
        _ => 0,
    }
}

/// vertices inserted by the drivers get distinct even integer positions derived from their tag
pub fn vpt(tag: i64) -> TVP {
    vpx(tag, 2 * tag, 2 * ((tag * tag * 37 + tag * 11) % 211), 2 * ((tag * tag * 53 + tag * 3) % 197))
}

pub const DZ: i64 = 1000;

/// Runs one operation; returns its results as specification ids.
pub fn exec(m: &mut Mesh, o: &Op, t: &[i64]) -> Vec<i64> {
    let a = &o.a;
    let vps = |t: &[i64]| t.iter().map(|&x| vpt(x)).collect::<Vec<_>>();
    let tr = || <A3 as TransformTrait<Sc, 3>>::from_translation(v3(0.0, 0.0, DZ as f64));
    let r3 = |r: (V, E, E)| vec![sid(r.0), sid(r.1), sid(r.2)];
    let rf = |r: (F, E, E)| vec![sid(r.0), sid(r.1), sid(r.2)];
    let re = |r: (E, E)| vec![sid(r.0), sid(r.1)];
    match o.name.as_str() {
        "addv" => vec![sid(m.add_vertex(vpt(t[0])))],
        "iso" => {
            let r = m.add_isolated_edge(vpt(t[0]), ep(t[1]), vpt(t[2]), ep(t[3]));
            vec![sid(r.0), sid(r.1)]
        }
        "isod" => {
            let r = m.add_isolated_edge_default(vpt(t[0]), vpt(t[1]));
            vec![sid(r.0), sid(r.1)]
        }
        "via" => r3(m.add_vertex_via_edge(e_(a[0]), e_(a[1]), vpt(t[0]), ep(t[1]), ep(t[2]))),
        "viad" => r3(m.add_vertex_via_edge_default(e_(a[0]), e_(a[1]), vpt(t[0]))),
        "viav" => r3(m.add_vertex_via_vertex(v_(a[0]), vpt(t[0]), ep(t[1]), ep(t[2]))),
        "viavd" => r3(m.add_vertex_via_vertex_default(v_(a[0]), vpt(t[0]))),
        "btw" => re(m.insert_edge_between(v_(a[0]), ep(t[0]), v_(a[1]), ep(t[1]))),
        "ins" => re(m.insert_edge(e_(a[0]), ep(t[0]), e_(a[1]), ep(t[1]))),
        "insnc" => re(m.insert_edge_no_check(e_(a[0]), ep(t[0]), e_(a[1]), ep(t[1]))),
        "close" => {
            rf(m.close_face(e_(a[0]), ep(t[0]), e_(a[1]), ep(t[1]), fp(t[2]), a[2] == 1))
        }
        "closed" => rf(m.close_face_default(e_(a[0]), e_(a[1]), a[2] == 1)),
        "closev" => rf(m.close_face_vertices(
            v_(a[0]),
            ep(t[0]),
            v_(a[1]),
            ep(t[1]),
            v_(a[2]),
            fp(t[2]),
            a[3] == 1,
        )),
        "closevd" => {
            rf(m.close_face_vertices_default(v_(a[0]), v_(a[1]), v_(a[2]), a[3] == 1))
        }
        "hole" => vec![sid(m.close_hole(e_(a[0]), fp(t[0]), a[1] == 1))],
        "holed" => vec![sid(m.close_hole_default(e_(a[0])))],
        "rmf" => vec![m.remove_face(f_(a[0])).tag],
        "ive" => {
            let it: Vec<_> = t.chunks(3).map(|c| (ep(c[0]), ep(c[1]), vpt(c[2]))).collect();
            vec![sid(m.insert_vertices_into_edge(e_(a[0]), it.into_iter()))]
        }
        "path" => re(m.insert_path(vps(t))),
        "loop" => vec![sid(m.insert_loop(vps(t)))],
        "polygon" => vec![sid(m.insert_polygon(vps(t)))],
        "dihedron" => vec![sid(m.insert_dihedron(vps(t)))],
        "sub" => vec![sid(m.subdivide_unsafe(e_(a[0]), vpt(t[0]), ep(t[1])))],
        "fix" => vec![m
            .subdivide_unsafe_try_fixup(e_(a[0]), ep(t[0]))
            .map(sid)
            .unwrap_or(0)],
        "flip" if m.num_edges() % 4 == 0 => {
            let f = m.flipped();
            *m = f;
            vec![]
        }
        "flip" => {
            m.flip();
            vec![]
        }
        "flipe" => {
            m.flip_edge(e_(a[0]));
            vec![]
        }
        "clear" => {
            m.clear();
            vec![]
        }
        "ltb" => vec![sid(m.loft_tri_back(e_(a[0]), a[1] == 1, vps(t)))],
        "ltbc" => vec![sid(m.loft_tri_back_closed(e_(a[0]), vps(t)))],
        "lt" => vec![sid(m.loft_tri(e_(a[0]), a[1] == 1, vps(t)))],
        "ltc" => vec![sid(m.loft_tri_closed(e_(a[0]), vps(t)))],
        "lpb" => vec![sid(m.loft_polygon_back(e_(a[0]), a[1] as usize, a[2] as usize, vps(t)))],
        "lp" => vec![sid(m.loft_polygon(e_(a[0]), a[1] as usize, a[2] as usize, vps(t)))],
        "ext" => vec![sid(m.extrude(e_(a[0]), tr()))],
        "extt" => vec![sid(m.extrude_tri(e_(a[0]), tr()))],
        "extt2" => vec![sid(m.extrude_tri2(e_(a[0]), tr()))],
        "extf" => vec![sid(m.extrude_face(f_(a[0]), tr()))],
        "exttf" => vec![sid(m.extrude_tri_face(f_(a[0]), tr()))],
        "extb" => {
            m.extrude_boundary(tr());
            vec![]
        }
        "apex" => vec![sid(m.fill_hole_apex(e_(a[0]), vpt(t[0])))],
        "loopsub" => {
            m.loop_subdivision(&LinearVertexInterpolator::<3> {});
            vec![]
        }
        "subfreq" => {
            m.subdivision_frequency(
                SubdivisionDescription::new(a[0] as usize, 0),
                LinearVertexInterpolator::<3> {},
            );
            vec![]
        }
        "slerp" => {
            let k = FX as f64;
            let c = v3(a[0] as f64 / k, a[1] as f64 / k, a[2] as f64 / k);
            m.loop_subdivision(&SlerpVertexInterpolator::<3, TT>::new(c, (a[3] as f64 / k) as Sc));
            vec![]
        }
        x => panic!("unknown operation {x}"),
    }
}

/// Records a mesh as a fresh start.
pub fn root_of(m: &Mesh) -> u64 {
    emit(&json!({"op":"init","a":[],"t":[],"r":[],"p":0,"st":"ok","m":snapshot(m,false)}))
}

/// Positions in fixed point, by vertex.
pub const FX: i64 = 4096;
pub fn fx(m: &Mesh) -> Value {
    fxk(m, FX as f64)
}
pub fn fxk(m: &Mesh, k: f64) -> Value {
    let mut ps: Vec<Value> = vec![];
    for x in m.vertices() {
        let p = x.pos::<Sc, 3, V3>();
        while ps.len() < x.id() as usize {
            ps.push(json!([0, 0, 0]));
        }
        let f = |x: f64| (x * k).round().max(-1e9).min(1e9) as i64;
        ps.push(json!([f(p.x as f64), f(p.y as f64), f(p.z as f64)]));
    }
    json!(ps)
}

/// Spherical subdivision: moves the vertices onto a random sphere (recorded as a fresh start), then subdivides.
pub fn slerp(n: &Node, rng: &mut Rng) {
    let mut m = n.mesh.clone();
    let c: Vec<i64> = (0..3).map(|_| rng.range(-3 * FX, 3 * FX)).collect();
    let r = rng.range(FX / 2, 4 * FX);
    let k = FX as f64;
    let ids: Vec<V> = m.vertices().map(|v| v.id()).collect();
    let dirs: Vec<[f64; 3]> = ids
        .iter()
        .map(|_| loop {
            let d: Vec<f64> = (0..3).map(|_| rng.range(-1000, 1000) as f64).collect();
            let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
            if l > 300.0 {
                break [d[0] / l, d[1] / l, d[2] / l];
            }
        })
        .collect();
    for (v, d) in ids.iter().zip(&dirs) {
        let q = |i: usize| (c[i] as f64 + r as f64 * d[i]) / k;
        m.vertex_mut(*v).payload_mut().set_pos(v3(q(0), q(1), q(2)));
    }
    // the midpoints must tell the edges apart
    let w = view(&m);
    let at = |v: i64| ids.iter().position(|&x| sid(x) == v).map(|i| dirs[i]).unwrap_or([0.0; 3]);
    let mut mids: Vec<[f64; 3]> = vec![];
    let mut flag = 1;
    for &e in &w.es {
        if e > w.tw[e as usize] {
            continue;
        }
        let (p, q) = (at(w.og[e as usize]), at(w.tgt(e)));
        let s = [p[0] + q[0], p[1] + q[1], p[2] + q[2]];
        let l = (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]).sqrt();
        let s = [s[0] / l, s[1] / l, s[2] / l];
        if l < 0.2 || mids.iter().any(|m| (0..3).all(|i| (m[i] - s[i]).abs() < 0.01)) {
            flag = 0;
        }
        mids.push(s);
    }
    let mut s0 = snapshot(&m, false);
    s0["fx"] = fx(&m);
    let idx = emit(&json!({"op":"sphere","a":[],"t":[],"r":[],"p":0,"st":"ok","m":s0}));
    let o = op("slerp", &[c[0], c[1], c[2], r, flag]);
    let mut ev = json!({"op":o.name,"a":o.a,"t":[],"p":idx,"r":[],"st":"ok","m":{"nx":[]}});
    match guard(&ev, || {
        exec(&mut m, &o, &[]);
        let mut s = snapshot(&m, false);
        s["fx"] = fx(&m);
        s
    }) {
        Ok(s) => ev["m"] = s,
        Err(e) => {
            ev["st"] = "panic".into();
            ev["msg"] = e.chars().take(160).collect::<String>().into();
        }
    }
    emit(&ev);
}

/// Random triangle meshes, subdivided.
pub fn subs(rng: &mut Rng, runs: usize, max_f: usize) {
    for _ in 0..runs {
        let mut n = root(true);
        let k = 1 + rng.below(max_f);
        let mut ok = true;
        let spokes = if rng.chance(1, 25) { rng.range(8, 24) as usize } else { 0 };
        for _ in 0..2 * spokes {
            let Some(o) = wheel_op(&view(&n.mesh), spokes, rng) else { break };
            match step(&n, &o, true) {
                Some(x) => n = x,
                None => break,
            }
        }
        for i in 0..if spokes > 0 { 2 } else { k } {
            let w = view(&n.mesh);
            if !w.sane() {
                ok = false;
                break;
            }
            let b = w.bnd();
            let mut todo: Vec<Op> = vec![];
            if (i == 0 && spokes == 0) || b.is_empty() || rng.chance(1, 12) {
                todo.push(if rng.chance(1, 10) { op("dihedron", &[3]) } else { op("polygon", &[3]) });
            } else {
                let e = *rng.pick(&b);
                let p = w.pv[e as usize];
                if w.lp(e).len() == 3 && rng.chance(1, 2) {
                    todo.push(op("hole", &[e, 0]));
                } else if rng.chance(1, 2) && w.lp(e).len() > 3 && !w.adj(w.tgt(e), w.og[p as usize]) {
                    todo.push(op("close", &[e, w.pv[p as usize], 0]));
                } else {
                    todo.push(op("via", &[e, w.next(e)]));
                    todo.push(op("close", &[0, p, 0]));
                }
            }
            for mut o in todo {
                if o.name == "close" && o.a[0] == 0 {
                    // from the dangling vertex back to the start of the edge
                    let w2 = view(&n.mesh);
                    let new: Vec<i64> = w2.es.iter().cloned().filter(|e| !w.es.contains(e)).collect();
                    match new.iter().find(|&&e| w2.deg(w2.tgt(e)) == 1) {
                        Some(&e) => o.a[0] = e,
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
                match step(&n, &o, true) {
                    Some(x) => n = x,
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                break;
            }
        }
        if !ok || !view(&n.mesh).sane() {
            continue;
        }
        let f = n.mesh.num_faces();
        let o = match rng.below(6) {
            0 | 1 => op("loopsub", &[]),
            2 => op("subfreq", &[2]),
            3 if f <= 8 => op("subfreq", &[4]),
            4 if f <= 2 => op("subfreq", &[8]),
            _ => op("slerp", &[]),
        };
        if o.name == "slerp" {
            slerp(&n, rng)
        } else {
            step(&n, &o, true);
        }
    }
    // what a description says about itself
    for i in 0..40 {
        let (b, c) = if i < 24 { (1 + i % 6, i / 6) } else { (1 + rng.below(40), rng.below(40)) };
        let d = SubdivisionDescription::new(b, c);
        emit(&json!({"op":"descr","a":[d.b(), d.c(), d.frequency(), d.triangulation_number()],"t":[b, c],"p":0,"r":[],"st":"ok","m":{"nx":[]}}));
    }
}

/// The state of a mesh plus vertex positions (doubled, so that midpoints stay integral).
pub fn snapshot(m: &Mesh, pos: bool) -> Value {
    let mut v = project(m);
    if pos {
        let mut ps: Vec<Value> = vec![];
        for x in m.vertices() {
            let p = x.pos::<Sc, 3, V3>();
            while ps.len() < x.id() as usize {
                ps.push(json!([0, 0, 0]));
            }
            ps.push(json!([
                (p.x * 8.0).round() as i64,
                (p.y * 8.0).round() as i64,
                (p.z * 8.0).round() as i64
            ]));
        }
        v["pos"] = json!(ps);
    }
    v
}

pub struct Node {
    pub mesh: Mesh,
    pub idx: u64,
    pub tag: i64,
}
pub fn root(pos: bool) -> Node {
    let mesh = Mesh::new();
    let v = json!({"op":"init","a":[],"t":[],"r":[],"p":0,"st":"ok","m":snapshot(&mesh,pos)});
    let idx = if mode() == BUILD { emit(&v) } else { 0 };
    Node { mesh, idx, tag: 0 }
}

/// Executes `o` on a copy of `n` and records it. None if it panicked (recorded as such).
pub fn step(n: &Node, o: &Op, pos: bool) -> Option<Node> {
    let mut tg = Tagger(n.tag);
    let t = tg.take(ntags(o));
    let mut ev = json!({"op":o.name,"a":o.a,"t":t,"p":n.idx,"r":[],"st":"ok","m":{"nx":[]}});
    let mut mesh = n.mesh.clone();
    let r = guard(&ev, || {
        let r = exec(&mut mesh, o, &t);
        let s = snapshot(&mesh, pos);
        (r, s)
    });
    match r {
        Ok((r, s)) => {
            ev["r"] = json!(r);
            ev["m"] = s;
            let idx = if mode() == BUILD {
                emit(&ev)
            } else {
                // between an unsafe subdivision and its repair there is no mesh to observe
                if o.name != "sub" && view(&mesh).sane() {
                    visit(&mesh, &mut Rng::new(t.iter().sum::<i64>() as u64 + n.idx));
                }
                0
            };
            Some(Node { mesh, idx, tag: tg.0 })
        }
        Err(msg) => {
            if mode() != BUILD {
                return None;
            }
            ev["st"] = "panic".into();
            ev["msg"] = msg.chars().take(160).collect::<String>().into();
            emit(&ev);
            None
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the driver's own view of what is admissible (the specification decides; this only steers)

pub struct View {
    pub es: Vec<i64>,
    pub vs: Vec<i64>,
    pub fs: Vec<i64>,
    pub nx: Vec<i64>,
    pub pv: Vec<i64>,
    pub tw: Vec<i64>,
    pub og: Vec<i64>,
    pub fc: Vec<i64>,
}
pub fn view(m: &Mesh) -> View {
    view_of::<TT>(m)
}
pub fn view_of<T: HalfEdgeImplMeshType>(m: &T::Mesh) -> View {
    let mut w = View {
        es: vec![],
        vs: vec![],
        fs: vec![],
        nx: vec![0],
        pv: vec![0],
        tw: vec![0],
        og: vec![0],
        fc: vec![0],
    };
    fn put(v: &mut Vec<i64>, i: i64, x: i64) {
        while v.len() <= i as usize {
            v.push(0)
        }
        v[i as usize] = x;
    }
    for e in m.edges() {
        let i = sid(e.id());
        w.es.push(i);
        put(&mut w.nx, i, sid(e.next_id()));
        put(&mut w.pv, i, sid(e.prev_id()));
        put(&mut w.tw, i, sid(e.twin_id()));
        put(&mut w.og, i, sid(e.origin_id()));
        put(&mut w.fc, i, sid(e.face_id()));
    }
    w.vs = m.vertices().map(|v| sid(v.id())).collect();
    w.fs = m.faces().map(|f| sid(f.id())).collect();
    w
}
impl View {
    pub fn tgt(&self, e: i64) -> i64 {
        self.og[self.tw[e as usize] as usize]
    }
    pub fn next(&self, e: i64) -> i64 {
        self.nx[e as usize]
    }
    /// Is it safe to keep building on this state? (the specification judges; this only stops a history that
    /// has already left it)
    pub fn sane(&self) -> bool {
        let ok = |x: i64, v: &Vec<i64>| x > 0 && (x as usize) < v.len();
        self.es.iter().all(|&e| {
            let i = e as usize;
            let (n, p, t) = (self.nx[i], self.pv[i], self.tw[i]);
            ok(n, &self.nx)
                && ok(p, &self.nx)
                && ok(t, &self.nx)
                && t != e
                && self.tw[t as usize] == e
                && self.pv[n as usize] == e
                && self.nx[p as usize] == e
                && self.og[n as usize] == self.og[t as usize]
                && self.fc[n as usize] == self.fc[i]
        })
    }
    pub fn lp(&self, e: i64) -> Vec<i64> {
        let mut r = vec![e];
        let mut c = self.nx[e as usize];
        while c != e && r.len() < 2000 {
            r.push(c);
            c = self.nx[c as usize];
        }
        r
    }
    pub fn bnd(&self) -> Vec<i64> {
        self.es.iter().cloned().filter(|&e| self.fc[e as usize] == 0).collect()
    }
    pub fn adj(&self, v: i64, w: i64) -> bool {
        self.es.iter().any(|&e| self.og[e as usize] == v && self.tgt(e) == w)
    }
    pub fn corners(&self, v: i64) -> usize {
        self.es.iter().filter(|&&e| self.og[e as usize] == v && self.fc[e as usize] == 0).count()
    }
    pub fn deg(&self, v: i64) -> usize {
        self.es.iter().filter(|&&e| self.og[e as usize] == v).count()
    }
    pub fn comp(&self, v: i64) -> Vec<i64> {
        let mut r = vec![v];
        let mut i = 0;
        while i < r.len() {
            for &e in &self.es {
                if self.og[e as usize] == r[i] && !r.contains(&self.tgt(e)) {
                    r.push(self.tgt(e))
                }
            }
            i += 1;
        }
        r
    }
    /// (inside, outside) pairs whose targets can be joined by a new edge within one boundary cycle
    pub fn pairs(&self, rng: &mut Rng) -> Option<(i64, i64)> {
        let b = self.bnd();
        if b.is_empty() {
            return None;
        }
        for _ in 0..12 {
            let i = *rng.pick(&b);
            let l = self.lp(i);
            let o = *rng.pick(&l);
            let (v, w) = (self.tgt(i), self.tgt(o));
            if v != w && !self.adj(v, w) {
                return Some((i, o));
            }
        }
        None
    }
}

pub fn random_op(m: &Mesh, rng: &mut Rng, max_e: usize) -> Option<Op> {
    random_op_on(&view(m), rng, max_e)
}
pub fn random_op_on(w: &View, rng: &mut Rng, max_e: usize) -> Option<Op> {
    let b = w.bnd();
    let full = w.es.len() >= max_e;
    for _ in 0..30 {
        let k = rng.below(34);
        let cu = rng.below(2) as i64;
        let o = match k {
            0 if !full => op("addv", &[]),
            1 if !full => op(if rng.chance(1, 3) { "isod" } else { "iso" }, &[]),
            2..=5 if !full && !b.is_empty() => {
                let i = *rng.pick(&b);
                op(if rng.chance(1, 4) { "viad" } else { "via" }, &[i, w.next(i)])
            }
            6..=7 if !full && !w.vs.is_empty() => {
                let v = *rng.pick(&w.vs);
                if w.deg(v) == 0 || w.corners(v) != 1 {
                    continue;
                }
                op(if rng.chance(1, 4) { "viavd" } else { "viav" }, &[v])
            }
            8..=10 if w.vs.len() > 1 => {
                let v = *rng.pick(&w.vs);
                let u = *rng.pick(&w.vs);
                if w.comp(v).contains(&u)
                    || (w.deg(v) > 0 && w.corners(v) != 1)
                    || (w.deg(u) > 0 && w.corners(u) != 1)
                {
                    continue;
                }
                op("btw", &[v, u])
            }
            11..=13 => {
                let Some((i, o)) = w.pairs(rng) else { continue };
                op(if rng.chance(1, 4) { "insnc" } else { "ins" }, &[i, o])
            }
            14..=17 => {
                let Some((i, o)) = w.pairs(rng) else { continue };
                op(if rng.chance(1, 4) { "closed" } else { "close" }, &[i, o, cu])
            }
            18..=19 => {
                let Some((i, o)) = w.pairs(rng) else { continue };
                let to = w.tgt(o);
                let l = w.lp(i);
                if l.iter().filter(|&&e| w.tgt(e) == to).count() != 1 {
                    continue;
                }
                op(
                    if rng.chance(1, 4) { "closevd" } else { "closev" },
                    &[w.og[i as usize], w.tgt(i), to, cu],
                )
            }
            20..=22 if !b.is_empty() => {
                let e = *rng.pick(&b);
                if w.lp(e).len() < 3 && rng.chance(9, 10) {
                    continue;
                }
                if rng.chance(1, 4) {
                    op("holed", &[e])
                } else {
                    op("hole", &[e, cu])
                }
            }
            23..=24 if !w.fs.is_empty() => op("rmf", &[*rng.pick(&w.fs)]),
            25..=26 if !full && !w.es.is_empty() => {
                op("ive", &[*rng.pick(&w.es), rng.range(0, 3)])
            }
            27 if !full => op("path", &[rng.range(2, 5)]),
            28 if !full => op("loop", &[rng.range(3, 6)]),
            29 if !full => op(if rng.chance(1, 3) { "dihedron" } else { "polygon" }, &[rng.range(3, 6)]),
            30..=31 if !full && !w.es.is_empty() => {
                // asking to repair an edge whose twin was not subdivided changes nothing
                op(if rng.chance(1, 6) { "fix" } else { "sub" }, &[*rng.pick(&w.es)])
            }
            32 if !w.es.is_empty() => op("flipe", &[*rng.pick(&w.es)]),
            33 => op("flip", &[]),
            _ => continue,
        };
        return Some(o);
    }
    None
}

/// The next operation towards a wheel: `k` spokes around one vertex, triangles between most of them.
pub fn wheel_op(w: &View, k: usize, rng: &mut Rng) -> Option<Op> {
    let Some(&first) = w.es.first() else { return Some(op("isod", &[])) };
    let c = w.og[first as usize];
    let into: Vec<i64> = w.bnd().into_iter().filter(|&e| w.tgt(e) == c).collect();
    if w.deg(c) < k {
        let e = *rng.pick(&into);
        return Some(op("viad", &[e, w.next(e)]));
    }
    // the triangle from a tip over the hub to the next tip
    for b in into {
        let (n, i) = (w.next(b), w.pv[b as usize]);
        let (t, u) = (w.og[b as usize], w.tgt(n));
        if t != u && !w.adj(t, u) && !rng.chance(1, 4 * k) {
            return Some(op("close", &[n, i, 0]));
        }
    }
    None
}

/// Random histories of building operations; a few of them start large: with up to `wide` corners.
pub fn histories(rng: &mut Rng, runs: usize, len: usize, max_e: usize, wide: i64) {
    for r in 0..runs + runs / 40 + 1 {
        let mut n = root(false);
        let large = r >= runs;
        let (len, max_e) = if large { (24, 6 * wide as usize) } else { (len, max_e) };
        if large && rng.chance(1, 2) {
            let top = (wide / 2).max(24);
            let k = if r % 2 == 0 { top } else { rng.range((wide / 4).max(6), top) } as usize;
            for _ in 0..2 * k {
                let Some(o) = wheel_op(&view(&n.mesh), k, rng) else { break };
                match step(&n, &o, false) {
                    Some(x) => n = x,
                    None => break,
                }
            }
        } else if large {
            let firsts: Vec<Op> = (0..2).map(|_| op(*rng.pick(&["polygon", "polygon", "dihedron", "loop", "path"]), &[rng.range(wide / 2, wide)])).collect();
            for o in firsts.iter().take(1 + rng.below(2)) {
                match step(&n, o, false) {
                    Some(x) => n = x,
                    None => break,
                }
            }
        } else if rng.chance(1, 2) {
            for o in [op("polygon", &[rng.range(3, 6)]), op("polygon", &[3])]
                .iter()
                .take(rng.below(3))
            {
                match step(&n, o, false) {
                    Some(x) => n = x,
                    None => break,
                }
            }
        }
        for _ in 0..len {
            if !view(&n.mesh).sane() {
                break;
            }
            let Some(o) = random_op(&n.mesh, rng, max_e) else { break };
            match step(&n, &o, false) {
                Some(x) => n = x,
                None => break,
            }
            // an unsafe subdivision leaves the twin to be repaired
            if o.name == "sub" {
                let t = view(&n.mesh).tw[o.a[0] as usize];
                match step(&n, &op("fix", &[t]), false) {
                    Some(x) => n = x,
                    None => break,
                }
            }
        }
        // end of history: sometimes also clear
        if rng.chance(1, 10) {
            step(&n, &op("clear", &[]), false);
        }
    }
}

/// Behaviours of the specification (one JSON array of operations per line), replayed as a prefix tree.
pub fn replay(path: &str, pos: bool) {
    let t = Trie::read(path);
    fn go(n: &Node, t: &Trie, pos: bool) {
        for (o, k) in t.kids.values() {
            let name = o[0].as_str().unwrap();
            let a: Vec<i64> =
                o.as_array().unwrap()[1..].iter().map(|x| x.as_i64().unwrap()).collect();
            let (mut name, mut a) = (name, a);
            if ["rmfe", "extfe", "exttfe"].contains(&name) {
                // the specification names a face by one of its edges
                let w = view(&n.mesh);
                match w.fc.get(a[0] as usize) {
                    Some(&f) if f > 0 => (name, a) = (&name[..name.len() - 1], vec![f]),
                    _ => continue,
                }
            }
            if name != "fix" && !view(&n.mesh).sane() {
                continue;
            }
            if name == "slerp" {
                slerp(n, &mut Rng::new(n.idx));
                continue;
            }
            if let Some(x) = step(n, &op(name, &a), pos) {
                go(&x, k, pos);
            }
        }
    }
    let n = root(pos);
    go(&n, &t, pos);
}

/// Histories that mix building with lofting: hems, extrusions and apexes on whatever boundary is there.
pub fn lofts(rng: &mut Rng, runs: usize, len: usize, max_e: usize) {
    for _ in 0..runs {
        let mut n = root(true);
        // one face around another boundary: every boundary is to be extruded
        if rng.chance(1, 15) {
            let k = rng.range(2, 3);
            let mut loops = vec![];
            for _ in 0..k {
                let Some(x) = step(&n, &op("polygon", &[rng.range(3, 5)]), true) else { break };
                n = x;
                let w = view(&n.mesh);
                loops.push(w.vs[w.vs.len() - rng.range(1, 3) as usize]);
            }
            let mut todo: Vec<Op> = loops.windows(2).map(|p| op("btw", p)).collect();
            todo.push(op("hole", &[0, 0]));
            todo.extend((1..=k).map(|f| op("rmf", &[f])));
            todo.push(op("extb", &[]));
            for mut o in todo {
                if o.name == "hole" {
                    o.a[0] = view(&n.mesh).bnd()[0];
                }
                let Some(x) = step(&n, &o, true) else { break };
                n = x;
            }
            continue;
        }
        // some boundaries are long enough for faces with many corners on either side
        let wide = rng.chance(1, 5);
        let size = if wide { rng.range(8, 16) } else { rng.range(3, 7) };
        let max_e = if wide { max_e + 100 } else { max_e };
        let first = match rng.below(4) {
            0 => op("loop", &[size]),
            _ => op("polygon", &[size]),
        };
        let len = if wide { len / 2 } else { len };
        for k in 0..len {
            let w = view(&n.mesh);
            if !w.sane() {
                break;
            }
            let o = if k == 0 {
                first.clone()
            } else if rng.chance(2, 5) {
                match random_op(&n.mesh, rng, max_e) {
                    Some(o) if o.name != "sub" && o.name != "clear" => o,
                    _ => continue,
                }
            } else {
                match random_loft(&w, rng, max_e) {
                    Some(o) => o,
                    None => continue,
                }
            };
            match step(&n, &o, true) {
                Some(x) => n = x,
                None => break,
            }
        }
    }
}

fn random_loft(w: &View, rng: &mut Rng, max_e: usize) -> Option<Op> {
    let b = w.bnd();
    let free = if w.es.len() < max_e { 1 } else { 0 };
    for _ in 0..20 {
        if rng.chance(1, 8) && !w.fs.is_empty() && free > 0 {
            let f = *rng.pick(&w.fs);
            return Some(op(if rng.chance(1, 2) { "extf" } else { "exttf" }, &[f]));
        }
        if b.is_empty() {
            return None;
        }
        if rng.chance(1, 15) && free > 0 {
            return Some(op("extb", &[]));
        }
        let e = *rng.pick(&b);
        let l = w.lp(e);
        let n = l.len() as i64;
        let mut vs: Vec<i64> = l.iter().map(|&e| w.og[e as usize]).collect();
        vs.sort();
        vs.dedup();
        if n < 3 || vs.len() as i64 != n {
            continue;
        }
        if free == 0 {
            return Some(op("apex", &[e]));
        }
        let s = rng.below(2) as i64;
        let k = rng.range(1, n);
        return Some(match rng.below(14) {
            0 => op("ltb", &[e, s, k]),
            1 => op("lt", &[e, s, k]),
            2 => op("ltbc", &[e, n]),
            3 => op("ltc", &[e, n]),
            4 => op("lpb", &[e, 2, 2, k]),
            5 => op("lpb", &[e, 2, 2, n]),
            6 => op("lp", &[e, 2, 2, k]),
            7 => op("lp", &[e, 2, 2, n]),
            8 => op("ext", &[e]),
            9 => op("extt", &[e]),
            10 => op("extt2", &[e]),
            11 => op("apex", &[e]),
            _ => {
                let top = if n > 7 { 9 } else { 4 };
                let (p, q) = (rng.range(2, top), rng.range(2, top));
                if n % (q - 1) == 0 && rng.chance(1, 2) && n / (q - 1) * (p - 1) >= 3 {
                    op("lpb", &[e, p, q, n / (q - 1) * (p - 1)])
                } else {
                    let z = rng.range(0, (n - 1) / (q - 1));
                    op("lpb", &[e, p, q, z * (p - 1) + 1])
                }
            }
        });
    }
    None
}
