//! The triangle index buffer: every operation from a given buffer, and what its reading functions say afterwards.
use crate::geo::*;
use crate::plane::fi;
use crate::util::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;

type Id = usize;
type Places<V, S> = HashMap<V, Vec2<S>>;

fn places<V: IndexType, S: ScalarPlus>(x: &[P2]) -> Places<V, S> {
    x.iter().enumerate().map(|(i, p)| (V::new(i), Vec2::<S>::new(S::from(p[0] as f32), S::from(p[1] as f32)))).collect()
}
fn reads<V: IndexType, S: ScalarPlus>(t: &Triangulation<V>, hm: &Places<V, S>) -> Value {
    let n = t.len();
    let id = |v: V| v.index() + 1;
    let tri: Vec<[Id; 3]> = (0..n).map(|i| { let (a, b, c) = t.get_triangle(i); [id(a), id(b), id(c)] }).collect();
    let idx: Vec<Id> = (0..3 * n).map(|i| id(t.get_index(i))).collect();
    let areas: Vec<i64> = (0..n).map(|i| fi(t.get_triangle_area(i, hm).to_f64(), 2.0)).collect();
    json!({"len": n, "next": t.next_pos(), "tri": tri, "idx": idx, "areas": areas, "area": fi(t.get_area(hm).to_f64(), 2.0), "weight": fi(t.total_edge_weight(hm).to_f64(), 100.0)})
}
/// A buffer in the given state.
fn with<'a, V: IndexType>(buf: &'a mut Vec<V>, b: &[Id], s: usize) -> Triangulation<'a, V> {
    buf.extend(b[..s].iter().map(|&i| V::new(i - 1)));
    let mut t = Triangulation::new(buf);
    for c in b[s..].chunks(3) {
        t.insert_triangle(V::new(c[0] - 1), V::new(c[1] - 1), V::new(c[2] - 1));
    }
    t
}
struct Case {
    b: Vec<Id>,
    s: usize,
    op: String,
    a: Vec<usize>,
    ids: Vec<Id>,
    f: Vec<Id>,
    x: Vec<P2>,
}
fn apply<V: IndexType, S: ScalarPlus>(c: &Case) -> Value {
    let hm = places::<V, S>(&c.x);
    let mut buf: Vec<V> = vec![];
    let (mut ok, mut s2) = (true, c.s);
    let r;
    if c.op == "open" {
        buf.extend(c.b.iter().map(|&i| V::new(i - 1)));
        let t = Triangulation::new(&mut buf);
        s2 = t.next_pos() - 3 * t.len();
        r = reads(&t, &hm);
    } else {
        let mut t = with(&mut buf, &c.b, c.s);
        let v = |i: usize| V::new(i - 1);
        match c.op.as_str() {
            "tri" => t.insert_triangle(v(c.a[0]), v(c.a[1]), v(c.a[2])),
            "local" => {
                let vs: Vec<IndexedVertex2D<V, Vec2<S>>> = c.ids.iter().map(|&i| IndexedVertex2D::new(hm[&v(i)], v(i))).collect();
                t.insert_triangle_local(c.a[0] - 1, c.a[1] - 1, c.a[2] - 1, &vs)
            }
            "map" => {
                let m: HashMap<V, V> = c.f.iter().enumerate().map(|(i, &j)| (V::new(i), v(j))).collect();
                t.map_indices(&m)
            }
            _ => ok = t.flip_edge(v(c.a[0]), v(c.a[1]), c.s + 3 * (c.a[2] - 1), c.s + 3 * (c.a[3] - 1)).is_ok(),
        }
        r = reads(&t, &hm);
    }
    let b2: Vec<Id> = buf.iter().map(|v| v.index() + 1).collect();
    json!({"b2": b2, "s2": s2, "ok": ok, "r": r})
}
fn run_case(rng: &mut Rng, c: &Case) -> (Vec<Id>, usize) {
    let mut v = json!({"op": c.op, "a": c.a, "b": c.b, "s": c.s, "ids": c.ids, "f": c.f, "X": c.x, "st": "ok", "b2": [], "s2": 0, "ok": true, "r": {}});
    let (wide, single) = (rng.chance(1, 2), rng.chance(1, 3));
    let r = guard(&v, || match (wide, single) {
        (true, false) => apply::<usize, f64>(c),
        (false, false) => apply::<u32, f64>(c),
        _ => apply::<u32, f32>(c),
    });
    match r {
        Ok(r) => {
            for k in ["b2", "s2", "ok", "r"] {
                v[k] = r[k].clone()
            }
        }
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
    let b2: Vec<Id> = v["b2"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    (b2, v["s2"].as_u64().unwrap() as usize)
}
fn pts(rng: &mut Rng, n: usize) -> Vec<P2> {
    let m = *rng.pick(&[3, 6, 30]);
    (0..n).map(|_| [rng.range(-m, m), rng.range(-m, m)]).collect()
}
fn perm(rng: &mut Rng, n: usize) -> Vec<Id> {
    let mut p: Vec<Id> = (1..=n).collect();
    for i in (1..n).rev() {
        p.swap(i, rng.below(i + 1))
    }
    p
}
fn history(rng: &mut Rng) {
    let n = rng.range(4, 7) as usize;
    let x = pts(rng, n);
    let k = rng.below(5);
    let mut b: Vec<Id> = (0..k).map(|_| 1 + rng.below(n)).collect();
    let mut s = b.len();
    for _ in 0..rng.range(4, 16) {
        let cnt = (b.len() - s) / 3;
        let p = perm(rng, n);
        let mut c = Case { b: b.clone(), s, op: "tri".into(), a: p[..3].to_vec(), ids: perm(rng, n), f: perm(rng, n), x: x.clone() };
        match rng.below(10) {
            0 => { c.op = "open".into(); c.a = vec![] }
            1 | 2 => c.op = "local".into(),
            3 => { c.op = "map".into(); c.a = vec![]; if rng.chance(1, 2) { c.f = (0..n).map(|_| 1 + rng.below(n)).collect() } }
            4..=6 if cnt >= 2 => {
                // mostly two triangles that share a side
                let mut i = rng.below(cnt);
                let mut j = (i + 1 + rng.below(cnt - 1)) % cnt;
                let t = |b: &[Id], i: usize, k: usize| b[s + 3 * i + k % 3];
                let mut ab = [t(&b, i, 0), t(&b, i, 1)];
                'find: for (p, q) in (0..cnt).flat_map(|p| (0..cnt).map(move |q| (p, q))).filter(|(p, q)| p != q).skip(rng.below(cnt)) {
                    for (k, m) in (0..3).flat_map(|k| (0..3).map(move |m| (k, m))) {
                        if t(&b, p, k) == t(&b, q, m + 1) && t(&b, p, k + 1) == t(&b, q, m) {
                            (i, j) = (p, q);
                            ab = [t(&b, p, k), t(&b, p, k + 1)];
                            if rng.chance(1, 3) { break 'find; }
                        }
                    }
                }
                if rng.chance(1, 8) { ab.swap(0, 1) }
                if rng.chance(1, 8) { (i, j) = (j, i) }
                c.op = "flip".into();
                c.a = vec![ab[0], ab[1], i + 1, j + 1];
            }
            7 | 8 if cnt >= 1 => {
                // the neighbour of the last triangle
                let l = b.len();
                let k = rng.below(3);
                let q = [b[l - 3 + k], b[l - 3 + (k + 1) % 3]];
                if let Some(w) = p.iter().find(|w| !q.contains(w)) {
                    c.a = vec![q[1], q[0], *w];
                    c.a.rotate_left(rng.below(3));
                }
            }
            _ => {}
        }
        let (b2, s2) = run_case(rng, &c);
        if b2.is_empty() && !b.is_empty() {
            return;
        }
        (b, s) = (b2, s2);
    }
}

fn verdicts<V: IndexType, S: ScalarPlus>(b: &[Id], s: usize, ids: &[Id], x: &[P2]) -> Value {
    let mut buf: Vec<V> = vec![];
    let t = with(&mut buf, b, s);
    let all = places::<V, S>(x);
    let vs: Vec<IndexedVertex2D<V, Vec2<S>>> = ids.iter().map(|&i| IndexedVertex2D::new(all[&V::new(i - 1)], V::new(i - 1))).collect();
    let hm: Places<V, S> = vs.iter().map(|v| (v.index, v.vec)).collect();
    let ok = |f: &dyn Fn()| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok();
    json!({"indices": ok(&|| t.verify_indices(&hm)), "used": ok(&|| t.verify_all_indices_used(&vs)), "crossing": ok(&|| t.verify_no_intersections(&hm)),
        "turns": ok(&|| t.verify_non_degenerate_triangle(&hm)), "area": ok(&|| t.verify_area::<Vec2<S>, Polygon2d<S>>(&vs, &hm)), "full": ok(&|| t.verify_full::<Vec2<S>, Polygon2d<S>>(&vs))})
}
fn verify(rng: &mut Rng, p: &[P2]) {
    let n = p.len();
    // places of all ids; the polygon has n of them
    let extra = rng.below(3);
    let mut x = pts(rng, n + extra);
    let ids: Vec<Id> = perm(rng, n + extra)[..n].to_vec();
    (0..n).for_each(|i| x[ids[i] - 1] = p[i]);
    let Some(mut t) = tiling(rng, p) else { return };
    match rng.below(9) {
        0 => { let i = rng.below(t.len()); t[i].swap(0, 1) }
        1 => { let i = rng.below(t.len()); t.remove(i); }
        2 => { let i = rng.below(t.len()); t.push(t[i]) }
        3 | 4 => { let i = rng.below(t.len()); t[i][rng.below(3)] = rng.below(n) }
        5 => { let (i, j) = (rng.below(t.len()), rng.below(t.len())); t[i] = t[j] }
        6 if t.len() > 1 => {
            // the other diagonal, be it one or not
            for _ in 0..40 {
                let (i, j) = (rng.below(t.len()), rng.below(t.len()));
                let (k, m) = (rng.below(3), rng.below(3));
                let (a, b, c) = (t[i][k], t[i][(k + 1) % 3], t[i][(k + 2) % 3]);
                if i != j && t[j][m] == b && t[j][(m + 1) % 3] == a {
                    let d = t[j][(m + 2) % 3];
                    t[i] = [a, d, c];
                    t[j] = [d, b, c];
                    break;
                }
            }
        }
        _ => {}
    }
    let s = rng.below(5);
    let mut b: Vec<Id> = (0..s).map(|_| 1 + rng.below(n + extra)).collect();
    b.extend(t.iter().flatten().map(|&i| ids[i]));
    if extra > 0 && b.len() > s && rng.chance(1, 8) {
        let other = (1..=n + extra).find(|i| !ids.contains(i)).unwrap();
        let k = s + rng.below(b.len() - s);
        b[k] = other
    }
    let mut v = json!({"op": "verify", "a": [], "b": b, "s": s, "ids": ids, "X": x, "st": "ok", "r": {}});
    match guard(&v, || verdicts::<u32, f64>(&b, s, &ids, &x)) {
        Ok(r) => v["r"] = r,
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into()
        }
    }
    emit(&v);
}
/// Some triangulation of a polygon, by cutting off random ears.
fn tiling(rng: &mut Rng, p: &[P2]) -> Option<Vec<[usize; 3]>> {
    let or = |a: P2, b: P2, c: P2| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
    let mut l: Vec<usize> = (0..p.len()).collect();
    let mut t = vec![];
    while l.len() > 3 {
        let n = l.len();
        let ears: Vec<usize> = (0..n)
            .filter(|&i| {
                let (a, b, c) = (l[(i + n - 1) % n], l[i], l[(i + 1) % n]);
                or(p[a], p[b], p[c]) > 0 && l.iter().all(|&k| [a, b, c].contains(&k) || !(or(p[a], p[b], p[k]) >= 0 && or(p[b], p[c], p[k]) >= 0 && or(p[c], p[a], p[k]) >= 0))
            })
            .collect();
        if ears.is_empty() {
            return None;
        }
        let i = *rng.pick(&ears);
        let mut c = [l[(i + n - 1) % n], l[i], l[(i + 1) % n]];
        c.rotate_left(rng.below(3));
        t.push(c);
        l.remove(i);
    }
    t.push([l[0], l[1], l[2]]);
    let k = rng.below(t.len());
    t.rotate_left(k);
    Some(t)
}

pub fn run(rng: &mut Rng, path: Option<&str>, runs: usize) {
    let text = path.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    let mut polys = vec![];
    let us = |v: &Value| -> Vec<usize> { v.as_array().map(|a| a.iter().flat_map(|x| if let Value::Array(y) = x { y.clone() } else { vec![x.clone()] }).filter_map(|x| x.as_u64().map(|x| x as usize)).collect()).unwrap_or_default() };
    for line in text.lines() {
        match serde_json::from_str::<Value>(line) {
            Ok(Value::Array(_)) => polys.push(serde_json::from_str::<Vec<P2>>(line).unwrap()),
            Ok(o) => {
                let x = pts(rng, 4);
                let c = Case { b: us(&o["b"]), s: o["s"].as_u64().unwrap() as usize, op: o["o"][0].as_str().unwrap().into(), a: us(&o["o"]), ids: vec![3, 1, 4, 2], f: vec![2, 3, 4, 1], x };
                run_case(rng, &c);
            }
            _ => {}
        }
    }
    for p in polys {
        verify(rng, &p);
    }
    for i in 0..runs {
        history(rng);
        let n = rng.range(4, 9) as usize;
        let w = *rng.pick(&[3, 5, 20]);
        let p = if i % 6 == 5 { shape(rng) } else { random_poly(rng, n, w, w) };
        for _ in 0..3 {
            verify(rng, &p);
        }
    }
}
