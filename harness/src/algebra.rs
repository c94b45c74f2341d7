//! Observations of a mesh by algebraic means: network matrices, isomorphism tests.
use crate::mesh::fxk;
use crate::tm::*;
use crate::util::*;
use crate::backend::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

fn rows<S: Scalar>(m: &nalgebra::DMatrix<S>, k: f64) -> Value {
    // plain matrices must hold integers
    let f = |x: f64| {
        if !x.is_finite() || (k == 1.0 && (x - x.round()).abs() > 1e-9) { 999_999_999 } else { (x * k).round().clamp(-1e9, 1e9) as i64 }
    };
    json!((0..m.nrows()).map(|i| (0..m.ncols()).map(|j| f(m[(i, j)].to_f64())).collect::<Vec<_>>()).collect::<Vec<_>>())
}

pub fn net(m: &Mesh, st: &Value) {
    const UNIT: f64 = 16.0;
    crate::obs::single("net", st, || {
        json!({
            "x": fxk(m, 1.0),
            "adj": rows(&m.adjacency_matrix::<f64>(), 1.0),
            "degm": rows(&m.degree_matrix::<f64>(), 1.0),
            "lap": rows(&m.laplacian::<f64>(), 1.0),
            "degs": m.degrees().take(400).map(|(v, d)| vec![sid(v), d as i64]).collect::<Vec<_>>(),
            "adje": rows(&m.adjacency_matrix_euclidean::<3>(), UNIT),
            "lape": rows(&m.laplacian_euclidean::<3>(), UNIT),
        })
    });
}

fn code<T: MeshType>(d: MeshEquivalenceDifference<T, T>) -> Value {
    use MeshEquivalenceDifference as D;
    let (k, x, y) = match d {
        D::Equivalent => (0, 0, 0),
        D::DifferentNumberOfVertices => (1, 0, 0),
        D::DifferentNumberOfEdges => (2, 0, 0),
        D::DifferentNumberOfFaces => (3, 0, 0),
        D::DifferentVertices(a, b) => (4, sid(a), sid(b)),
        D::DifferentEdges(a, b) => (5, sid(a), sid(b)),
        D::DifferentFaces(a, b) => (6, sid(a), sid(b)),
        D::NoCorrespondingVertex => (7, 0, 0),
        D::NoCorrespondingEdge(e) => (8, sid(e), 0),
        D::NoCorrespondingFace(f) => (9, sid(f), 0),
    };
    json!([k, x, y])
}
/// eq() and ne() must say the same
pub fn code2<T: MeshType>(d: MeshEquivalenceDifference<T, T>) -> Value {
    if d.eq() == d.ne() {
        return json!([99, 0, 0]);
    }
    code(d)
}

/// `phi[v]` is the (0-based) image of the live vertex `v`, or -1
pub fn compare(a: &Mesh, b: &Mesh, phi: &[i64]) {
    let st = project(a);
    let eps = 0.5;
    let mut ev = json!({"op":"iso","p":0,"st":"ok","m":st,"b":project(b),"x":fxk(a,8.0),"y":fxk(b,8.0),
        "phi":phi.iter().map(|p| p + 1).collect::<Vec<_>>(),"w":{}});
    let w = guard(&ev, || {
        let vids: Vec<V> = a.vertices().map(|v| v.id()).collect();
        let bij = {
            let mut im: Vec<i64> = vids.iter().filter_map(|&v| phi.get(v as usize)).cloned().filter(|&x| x >= 0 && b.has_vertex(x as V)).collect();
            im.sort();
            im.dedup();
            im.len() == vids.len() && vids.len() == b.num_vertices()
        };
        let mut w = json!({"phi": [], "phit": []});
        if bij {
            let mut i = IndexIsomorphism::<V, V>::new();
            for &v in &vids {
                i.insert(v, phi[v as usize] as V);
            }
            w["phi"] = code2(a.is_isomorphic::<TT, _, _, _>(b, &i, |_, _| true, |_, _| true, |_, _| true));
            w["phit"] = code2(a.is_isomorphic::<TT, _, _, _>(
                b,
                &i,
                |x, y| x.payload().tag == y.payload().tag,
                |x, y| x.payload().tag == y.payload().tag,
                |x, y| x.payload().tag == y.payload().tag,
            ));
        }
        let same = |x: &<TT as MeshType>::Vertex, y: &<TT as MeshType>::Vertex| x.payload().tag == y.payload().tag;
        w["tag"] = code2(a.is_isomorphic_by::<TT, _>(b, same));
        w["tagr"] = code2(b.is_isomorphic_by::<TT, _>(a, same));
        w["found"] = match a.find_payload_isomorphism::<TT, _>(b, same) {
            Err(_) => json!([0]),
            Ok(i) => {
                let n = vids.iter().map(|&v| v as usize + 1).max().unwrap_or(0);
                let mut r = vec![0i64; n];
                for (&x, &y) in i.iter() {
                    if (x as usize) < n && i.has(x) && i.get(x) == Some(&y) {
                        r[x as usize] = sid(y);
                    }
                }
                json!(r)
            }
        };
        w["pos"] = code2(a.is_isomorphic_by_pos::<Sc, 3, V3, TT>(b, eps));
        w["posr"] = code2(b.is_isomorphic_by_pos::<Sc, 3, V3, TT>(a, eps));
        w["pos2"] = code2(a.is_isomorphic_pos::<3, Sc, V3>(b, eps));
        w["triv"] = code2(a.is_trivially_isomorphic(b));
        w["trivr"] = code2(b.is_trivially_isomorphic(a));
        w["trivp"] = code2(a.is_trivially_isomorphic_pos::<3, Sc, V3>(b, eps));
        w["trivpr"] = code2(b.is_trivially_isomorphic_pos::<3, Sc, V3>(a, eps));
        w
    });
    match w {
        Ok(w) => ev["w"] = w,
        Err(e) => {
            ev["st"] = "panic".into();
            ev["msg"] = e.chars().take(160).collect::<String>().into();
        }
    }
    emit(&ev);
}

/// The same mesh with its live elements stored under permuted ids.
pub fn permuted(m: &Mesh, sv: &[i64], se: &[i64], sf: &[i64]) -> Mesh {
    let w = crate::mesh::view(m);
    let mut b = m.clone();
    let g = |s: &[i64], x: i64| s[x as usize - 1] as usize;
    for e in m.edges() {
        let i = sid(e.id());
        let x = g(se, i);
        let y = b.edge_mut(x);
        y.set_next(g(se, w.nx[i as usize]));
        y.set_prev(g(se, w.pv[i as usize]));
        y.set_twin(g(se, w.tw[i as usize]));
        y.set_origin(g(sv, w.og[i as usize]) as V);
        if !y.is_boundary_self() {
            y.delete_face();
        }
        if w.fc[i as usize] != 0 {
            y.set_face(g(sf, w.fc[i as usize]) as F);
        }
        *y.payload_mut() = *e.payload();
    }
    for v in m.vertices() {
        let x = g(sv, sid(v.id())) as V;
        let e = v.edge_id(m);
        let y = b.vertex_mut(x);
        y.set_edge(if sid(e) == 0 { e } else { g(se, sid(e)) });
        *y.payload_mut() = *v.payload();
    }
    for f in m.faces() {
        let y = b.face_mut(g(sf, sid(f.id())) as F);
        y.set_edge(g(se, sid(f.edge_id())));
        *y.payload_mut() = *f.payload();
    }
    b
}

fn perm(ids: &[i64], r: &mut Rng, mix: bool) -> Vec<i64> {
    let mut t = ids.to_vec();
    if mix {
        r.shuffle(&mut t);
    }
    let mut s = vec![-1; ids.iter().cloned().max().unwrap_or(0) as usize];
    for (a, b) in ids.iter().zip(&t) {
        s[*a as usize - 1] = b - 1;
    }
    s
}

fn change(b: &mut Mesh, r: &mut Rng, kind: usize) {
    let w = crate::mesh::view(b);
    if w.vs.is_empty() {
        return;
    }
    let v = (*r.pick(&w.vs) - 1) as V;
    match kind {
        0 if r.chance(1, 3) => {
            // two vertices that are told the same
            let u = (*r.pick(&w.vs) - 1) as V;
            let (t, p) = (b.vertex(u).payload().tag, *b.vertex(u).payload().pos());
            b.vertex_mut(v).payload_mut().tag = t;
            b.vertex_mut(v).payload_mut().set_pos(p);
        }
        0 => b.vertex_mut(v).payload_mut().tag += 100_000,
        1 if !w.es.is_empty() => b.edge_mut((*r.pick(&w.es) - 1) as E).payload_mut().tag += 100_000,
        2 if !w.fs.is_empty() => b.face_mut((*r.pick(&w.fs) - 1) as F).payload_mut().tag += 100_000,
        3 | 4 => {
            let mut p = *b.vertex(v).payload().pos();
            p[r.below(3)] += if kind == 3 { 0.25 } else { 1.0 } * if r.chance(1, 2) { 1.0 } else { -1.0 };
            b.vertex_mut(v).payload_mut().set_pos(p);
        }
        5 if !w.fs.is_empty() => {
            b.remove_face((*r.pick(&w.fs) - 1) as F);
        }
        _ => {
            if let Some(o) = crate::mesh::random_op(b, r, 60) {
                if o.name != "sub" && o.name != "fix" {
                    let t: Vec<i64> = (1..=crate::mesh::ntags(&o) as i64).map(|i| 5000 + i).collect();
                    crate::mesh::exec(b, &o, &t);
                }
            }
        }
    }
}

pub fn iso(m: &Mesh, _st: &Value, r: &mut Rng) {
    let w = crate::mesh::view(m);
    if w.es.len() > 44 {
        return;
    }
    let mixes = r.below(8);
    let (sv, se, sf) = (perm(&w.vs, r, mixes & 1 > 0), perm(&w.es, r, mixes & 2 > 0), perm(&w.fs, r, mixes & 4 > 0));
    let mut variants: Vec<(Mesh, Mesh, Vec<i64>)> = vec![];
    let _ = guard(&json!({"op":"iso","p":0,"st":"ok","m":project(m),"b":project(m)}), || {
        let b = permuted(m, &sv, &se, &sf);
        match r.below(6) {
            0 => variants.push((m.clone(), b, sv.clone())),
            1 => {
                // a random renaming of the vertices against the mesh itself or its copy
                let q = perm(&w.vs, r, true);
                variants.push((m.clone(), m.clone(), q));
                // turn the mesh along one of its cycles
                if !w.es.is_empty() {
                    let l = w.lp(*r.pick(&w.es));
                    let mut q = perm(&w.vs, r, false);
                    let back = r.chance(1, 2);
                    let k = r.below(l.len());
                    for i in 0..l.len() {
                        let j = if back { (2 * l.len() - i + k) % l.len() } else { (i + k) % l.len() };
                        q[w.og[l[i] as usize] as usize - 1] = w.og[l[j] as usize] - 1;
                    }
                    variants.push((m.clone(), m.clone(), q));
                }
            }
            2 | 3 => {
                let mut b = b;
                let k = r.below(7);
                change(&mut b, r, k);
                variants.push((m.clone(), b, sv.clone()));
            }
            _ => {
                // two different continuations of the same mesh
                let (mut a, mut b) = (m.clone(), b);
                let id = perm(&w.vs, r, false);
                if r.chance(1, 2) {
                    b = m.clone();
                    // preferably by the same kind of operation
                    let mut os: Vec<crate::mesh::Op> = vec![];
                    for _ in 0..25 {
                        match crate::mesh::random_op(m, r, 60) {
                            Some(o) if o.name != "sub" && o.name != "fix" => {
                                let k = |o: &crate::mesh::Op| o.name.trim_end_matches('d').to_string();
                                if os.is_empty() || (k(&os[0]) == k(&o) && os[0].a != o.a) {
                                    os.push(o);
                                }
                            }
                            _ => {}
                        }
                        if os.len() == 2 {
                            break;
                        }
                    }
                    for (x, o) in [&mut a, &mut b].into_iter().zip(&os) {
                        let t: Vec<i64> = (1..=crate::mesh::ntags(o) as i64).map(|i| 5000 + i).collect();
                        crate::mesh::exec(x, o, &t);
                    }
                    let mut q = id;
                    for v in a.vertices().map(|v| v.id() as usize) {
                        while q.len() <= v {
                            q.push(q.len() as i64);
                        }
                        if q[v] < 0 {
                            q[v] = v as i64;
                        }
                    }
                    variants.push((a, b, q));
                } else {
                    change(&mut b, r, 6);
                    change(&mut b, r, 6);
                    variants.push((m.clone(), b, sv.clone()));
                }
            }
        }
    });
    for (a, b, phi) in variants {
        if crate::mesh::view(&a).sane() && crate::mesh::view(&b).sane() {
            compare(&a, &b, &phi);
        }
    }
}
