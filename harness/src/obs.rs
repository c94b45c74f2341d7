//! Observations of a single mesh: walks, queries, checker verdicts. One event per distinct mesh.
use crate::mesh::View;
use crate::tm::*;
use crate::util::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Mutex;

pub static MODE: AtomicU8 = AtomicU8::new(0);
pub const BUILD: u8 = 0;
pub const WALK: u8 = 1;
pub const QUERY: u8 = 2;
pub const CHECK: u8 = 3;
pub const NET: u8 = 4;
pub const ISO: u8 = 5;
pub fn mode() -> u8 {
    MODE.load(Ordering::SeqCst)
}
static SEEN: Mutex<Option<HashSet<u64>>> = Mutex::new(None);

pub fn fresh(s: &str) -> bool {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    SEEN.lock().unwrap().get_or_insert_with(HashSet::new).insert(h.finish())
}

/// Records what the current mode observes about this mesh, once per distinct mesh.
pub fn visit(m: &Mesh, rng: &mut Rng) {
    let st = project(m);
    if !fresh(&st.to_string()) {
        return;
    }
    match mode() {
        WALK => single("walk", &st, || walk(m)),
        QUERY => single("query", &st, || query(m)),
        CHECK => check(m, &st, rng),
        NET => crate::algebra::net(m, &st),
        ISO => crate::algebra::iso(m, &st, rng),
        _ => {}
    }
}

pub fn single(name: &str, st: &Value, f: impl FnOnce() -> Value) {
    let mut ev = json!({"op":name,"p":0,"st":"ok","m":st,"w":{}});
    match guard(&ev, f) {
        Ok(w) => ev["w"] = w,
        Err(e) => {
            ev["st"] = "panic".into();
            ev["msg"] = e.chars().take(160).collect::<String>().into();
        }
    }
    emit(&ev);
}

/// Iterators are cut off well beyond any correct length, so that an endless walk becomes a wrong answer.
pub const CUT: usize = 400;

fn ids(it: impl Iterator<Item = i64>) -> Vec<i64> {
    it.take(CUT).collect()
}
fn put(v: &mut Vec<Value>, i: usize, x: Value) {
    while v.len() <= i {
        v.push(json!([]))
    }
    v[i] = x;
}

fn walk(m: &Mesh) -> Value {
    let (mut vs, mut es, mut fs) = (vec![], vec![], vec![]);
    for v in m.vertices() {
        let mut o = json!({
            "out": ids(v.edges_out(m).map(|e| sid(e.id()))),
            "in": ids(v.edges_in(m).map(|e| sid(e.id()))),
            "nb": ids(v.vertices(m).map(|x| sid(x.id()))),
            "nbi": ids(v.neighbor_ids(m).map(sid)),
            "fc": ids(v.faces(m).map(|f| sid(f.id()))),
            "deg": 0
        });
        o["deg"] = json!(v.degree(m));
        put(&mut vs, v.id() as usize, o);
    }
    let all: Vec<E> = m.edges().map(|e| e.id()).collect();
    let mut m2 = m.clone();
    for &e in &all {
        let x = m.edge(e);
        let mut it = x.edges_face(m);
        let mut lens = vec![it.len() as i64];
        while lens.len() < CUT && it.next().is_some() {
            lens.push(it.len() as i64);
        }
        let x2 = m2.edge(e).clone();
        let mu = ids(x2.edges_face_mut(&mut m2).map(|e| sid(e.id())));
        put(
            &mut es,
            e,
            json!({
                "fw": ids(x.edges_face(m).map(|e| sid(e.id()))),
                "bw": ids(x.edges_face_back(m).map(|e| sid(e.id()))),
                "fw2": ids(m.edges_from(e).map(|e| sid(e.id()))),
                "bw2": ids(m.edges_back_from(e).map(|e| sid(e.id()))),
                "mut": mu,
                "len": lens,
            }),
        );
    }
    for f in m.faces() {
        put(
            &mut fs,
            f.id() as usize,
            json!({
                "e": ids(f.edges(m).map(|e| sid(e.id()))),
                "ei": ids(f.edge_ids(m).map(sid)),
                "v": ids(f.vertices(m).map(|e| sid(e.id()))),
                "vi": ids(f.vertex_ids(m).map(sid)),
                "vl": f.vertices(m).len(),
                "n": [f.num_edges(m), f.num_vertices(m)],
                "nt": if f.num_vertices(m) >= 2 { f.num_triangles(m) } else { 0 },
            }),
        );
    }
    json!({
        "v": vs, "e": es, "f": fs,
        "tw": m.twin_edges().take(CUT).map(|(a, b)| vec![sid(a.id()), sid(b.id())]).collect::<Vec<_>>(),
    })
}

fn query(m: &Mesh) -> Value {
    let mut es = vec![];
    let mut vs = vec![];
    let vids: Vec<V> = m.vertices().map(|v| v.id()).collect();
    for v in m.vertices() {
        let mut fan = vec![];
        // boundary corners are only promised for manifold vertices
        let c = v.edges_out(m).filter(|e| e.is_boundary_self()).count();
        if c == 1 || v.edges_out(m).count() == 0 {
            fan.push(v.outgoing_boundary_edge(m).map(sid).unwrap_or(0));
            fan.push(if c == 1 { v.ingoing_boundary_edge(m).map(sid).unwrap_or(0) } else { 0 });
        }
        put(
            &mut vs,
            v.id() as usize,
            json!({
                "b": v.is_boundary(m), "one": v.has_only_one_edge(m),
                "e": sid(v.edge_id(m)), "e2": v.edge(m).map(|e| sid(e.id())).unwrap_or(0),
                "fan": fan,
            }),
        );
    }
    for e in m.edges() {
        put(
            &mut es,
            e.id(),
            json!({
                "b": e.is_boundary(m), "bs": e.is_boundary_self(),
                "t": sid(e.target_id(m)), "t2": sid(e.target(m).id()), "o": sid(e.origin(m).id()),
                "lk": [sid(e.next(m).id()), sid(e.prev(m).id()), sid(e.twin(m).id())],
                "f": e.face(m).map(|f| sid(f.id())).unwrap_or(0),
                "of": e.other_face(m).map(|f| sid(f.id())).unwrap_or(0),
                "fs": ids(e.face_ids(m).map(sid)),
                "sf": vids.iter().filter(|&&v| e.same_face(m, v)).map(|&v| sid(v)).collect::<Vec<_>>(),
                "sb": vids.iter().filter(|&&v| e.same_face_back(m, v)).map(|&v| sid(v)).collect::<Vec<_>>(),
            }),
        );
    }
    let mut pairs = vec![];
    for &v in &vids {
        for &w in &vids {
            pairs.push(json!({
                "v": sid(v), "w": sid(w),
                "e": m.shared_edge_id(v, w).map(sid).unwrap_or(0),
                "e2": m.shared_edge(v, w).map(|e| sid(e.id())).unwrap_or(0),
                "f": m.shared_face(v, w).map(sid).unwrap_or(0),
                "path": m.shortest_path(v, w).map(|p| p.into_iter().map(sid).collect::<Vec<_>>()).unwrap_or_default(),
            }));
        }
    }
    let top = vids.iter().map(|&v| v as i64).max().unwrap_or(-1) + 3;
    let mut c = m.clone();
    let vm = ids(c.vertices_mut().map(|v| sid(v.id())));
    let em = ids(c.edges_mut().map(|e| sid(e.id())));
    let fm = ids(c.faces_mut().map(|f| sid(f.id())));
    json!({
        "vm": vm, "em": em, "fm": fm,
        "has": (0..top).filter(|&i| m.has_vertex(i as V)).map(|i| i + 1).collect::<Vec<_>>(),
        "n": [m.num_vertices(), m.num_edges(), m.num_faces()],
        "vi": ids(m.vertex_ids().map(sid)), "ei": ids(m.edge_ids().map(sid)), "fi": ids(m.face_ids().map(sid)),
        "open": m.is_open(), "cons": m.has_consecutive_vertex_ids(),
        "v": vs, "e": es, "pairs": pairs,
    })
}

/// The checker's verdict on the mesh and on copies with one damaged reference.
fn check(m: &Mesh, st: &Value, rng: &mut Rng) {
    let verdict = |m: &Mesh| -> Value { json!({"ok": m.check().is_ok()}) };
    single("check", st, || verdict(m));
    let w: View = crate::mesh::view(m);
    if !w.sane() || w.es.is_empty() {
        return;
    }
    // damage: (kind, element, new value)
    let mut all: Vec<(usize, i64, i64)> = vec![];
    for &e in &w.es {
        let i = e as usize;
        for &x in &w.es {
            for (k, old) in [(0, w.nx[i]), (1, w.pv[i]), (2, w.tw[i])] {
                if x != old {
                    all.push((k, e, x));
                }
            }
        }
        for &v in &w.vs {
            if v != w.og[i] {
                all.push((3, e, v));
            }
        }
        for &f in &w.fs {
            if f != w.fc[i] {
                all.push((4, e, f));
            }
        }
        if w.fc[i] != 0 {
            all.push((4, e, 0));
        }
    }
    for &e in &w.es {
        for &v in &w.vs {
            all.push((5, v, e));
        }
        for &f in &w.fs {
            all.push((6, f, e));
        }
    }
    // some meshes exhaustively, the others by sampling each kind
    let budget = if rng.chance(1, 25) { all.len().min(300) } else { 7 };
    rng.shuffle(&mut all);
    let mut kinds = [0; 7];
    let mut n = 0;
    for (k, a, b) in all {
        if n >= budget {
            break;
        }
        if budget == 7 && kinds[k] > 0 {
            continue;
        }
        kinds[k] += 1;
        n += 1;
        let mut c = m.clone();
        let x = (a - 1) as usize;
        match k {
            0 => c.edge_mut(x).set_next((b - 1) as E),
            1 => c.edge_mut(x).set_prev((b - 1) as E),
            2 => c.edge_mut(x).set_twin((b - 1) as E),
            3 => c.edge_mut(x).set_origin((b - 1) as V),
            4 => {
                if w.fc[a as usize] != 0 {
                    c.edge_mut(x).delete_face();
                }
                if b != 0 {
                    c.edge_mut(x).set_face((b - 1) as F);
                }
            }
            5 => c.vertex_mut(x as V).set_edge((b - 1) as E),
            _ => c.face_mut(x as F).set_edge((b - 1) as E),
        }
        let st = project(&c);
        single("check", &st, || verdict(&c));
    }
}
