//! The path builder and the SVG import, on meshes with curved edges.
use crate::curved::{all, code, exec, grid, MC, MT, P2};
use crate::mesh::{op, random_op_on, view_of, View};
use crate::tm::*;
use crate::util::*;
use crate::backend::*;
use procedural_modelling::extensions::svg::BackendSVG;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

type EP = <MT as MeshType>::EP;
type Curve = CurvedEdgeType<2, MT>;
type PB<'a> = PathBuilder<'a, MT, A2>;

fn int(x: f64) -> i64 {
    if x.fract() == 0.0 && (0.0..64.0).contains(&x) { x as i64 } else { 1_000_000_000 }
}
/// The curve of a half-edge as a number.
fn bent(c: &Curve) -> i64 {
    let k = |p: &P2| (int(p.x as f64) * 64 + int(p.y as f64)).min(1 << 13);
    match c {
        CurvedEdgeType::Linear => 0,
        CurvedEdgeType::QuadraticBezier(c) => 1_000_000 + k(c),
        CurvedEdgeType::CubicBezier(c, d) => 100_000_000 + k(c) * 4096 + k(d),
    }
}
fn project_p(m: &MC) -> Value {
    let m2 = m;
    let mut v = project_with::<MT>(m2, |_| 0, |v| code(v.pos().x as f64, v.pos().y as f64), |_| 0);
    // payloads of half-edges by their curves
    let mut ep: Vec<i64> = v["ep"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    for e in m.edges() {
        ep[e.id() as usize] = bent(&e.curve_type());
    }
    v["ep"] = json!(ep);
    v
}
fn pen(p: &PB) -> Value {
    let v = |x: I| if x == <I as IndexType>::max() { 0 } else { x as i64 + 1 };
    let e = |x: Option<(I, I)>| x.map(|(a, b)| vec![v(a), v(b)]).unwrap_or_default();
    json!({"sv": v(p.start_vertex()), "cv": v(p.current_vertex()), "se": e(p.start_edges()), "ce": e(p.current_edges()),
           "closed": p.is_closed(), "face": p.is_closed() && p.has_face()})
}
fn no_pen() -> Value {
    json!({"sv": 0, "cv": 0, "se": [], "ce": [], "closed": false, "face": false})
}
fn at(rng: &mut Rng) -> P2 {
    v2(rng.range(0, 63) as f64, rng.range(0, 63) as f64)
}
fn curve(rng: &mut Rng) -> Curve {
    match rng.below(3) {
        0 => CurvedEdgeType::Linear,
        1 => CurvedEdgeType::QuadraticBezier(at(rng)),
        _ => CurvedEdgeType::CubicBezier(at(rng), at(rng)),
    }
}
fn ep(c: &Curve) -> EP {
    let mut e = EP::default();
    e.set_curve_type(*c);
    e
}
/// Where the commands come from: a behaviour of the specification, or chance.
pub trait Source {
    fn next(&mut self, w: &View, pen: &Value, rng: &mut Rng) -> Option<Vec<Value>>;
}
struct Fixed<'a>(&'a [Value], usize);
impl Source for Fixed<'_> {
    fn next(&mut self, _: &View, _: &Value, _: &mut Rng) -> Option<Vec<Value>> {
        self.1 += 1;
        self.0.get(self.1 - 1).map(|o| o.as_array().unwrap().clone())
    }
}
struct Chance {
    left: usize,
    sane: bool,
}
impl Source for Chance {
    fn next(&mut self, w: &View, pen: &Value, rng: &mut Rng) -> Option<Vec<Value>> {
        if self.left == 0 || !(self.sane || w.sane()) {
            return None;
        }
        self.left -= 1;
        let c = |s: &str, a: &[i64]| Some(std::iter::once(json!(s)).chain(a.iter().map(|x| json!(x))).collect());
        if pen.is_null() {
            return match rng.below(10) {
                0..=3 => c("start", &[]),
                4 | 5 if !w.vs.is_empty() => c("startat", &[*rng.pick(&w.vs)]),
                6 | 7 if !w.es.is_empty() => c("startedge", &[*rng.pick(&w.es)]),
                _ => {
                    let o = random_op_on(w, rng, 60)?;
                    let mut v = vec![json!(o.name)];
                    v.extend(o.a.iter().map(|x| json!(x)));
                    Some(v)
                }
            };
        }
        let closed = pen["closed"] == true;
        match rng.below(20) {
            0 => c("leave", &[]),
            1..=3 => c("fill", &[]),
            4..=9 if !closed && !w.vs.is_empty() => c("lineto", &[*rng.pick(&w.vs)]),
            10 | 11 if !closed => c("lineto", &[pen["sv"].as_i64().unwrap()]),
            _ if !closed => c("line", &[]),
            _ => c(*rng.pick(&["fill", "leave", "leave"]), &[]),
        }
    }
}
pub struct Run {
    tag: i64,
    quiet: bool,
}
impl Run {
    fn fresh(&mut self) -> (P2, i64) {
        self.tag += 1;
        let (x, y) = grid(self.tag);
        (v2(x as f64, y as f64), code(x as f64, y as f64))
    }
    fn record(&self, v: &Value) {
        let key = json!([v["op"], v["how"], v["a"], v["m"], v["b"]]).to_string();
        if !self.quiet && crate::obs::fresh(&key) {
            emit(v);
        }
    }
}
fn event(name: &str, how: &str, a: &[i64], m: Value, b: Value) -> Value {
    json!({"op": name, "how": how, "a": a, "t": [0, 0, 0], "st": "ok", "m": m, "b": b, "m2": {}, "b2": no_pen(), "r": 0})
}
/// Runs the commands on a mesh. Stops at the first panic.
pub fn perform(m: &mut MC, src: &mut dyn Source, r: &mut Run, rng: &mut Rng) {
    loop {
        let w = view_of::<MT>(m);
        let Some(o) = src.next(&w, &Value::Null, rng) else { return };
        let a: Vec<i64> = o[1..].iter().filter_map(|x| x.as_i64()).collect();
        let name = o[0].as_str().unwrap().to_string();
        if !["start", "startat", "startedge"].contains(&name.as_str()) {
            if ["line", "lineto", "fill", "leave"].contains(&name.as_str()) {
                return;
            }
            // an operation on the mesh itself, judged elsewhere
            let o = op(&name, &a);
            let k = crate::mesh::ntags(&o) as i64;
            let t: Vec<i64> = (1..=k).map(|i| r.tag + i).collect();
            r.tag += k;
            if name == "clear" || guard(&json!({"op": "skip"}), || exec(m, &o, &t)).is_err() || !view_of::<MT>(m).sane() {
                return;
            }
            continue;
        }
        let how = match name.as_str() {
            "start" => *rng.pick(&["pos", "ex", "new"]),
            _ => "id",
        };
        let (p, t) = r.fresh();
        let mut ev = event(&name, how, &a, project_p(m), no_pen());
        ev["t"][0] = json!(t);
        let id = || (a[0] - 1) as I;
        let mm: *mut MC = m;
        let pb = guard(&ev, || {
            // the pen is dropped before the mesh is used again
            let m: &'static mut MC = unsafe { &mut *mm };
            match (name.as_str(), how) {
                ("start", "pos") => PB::start(m, p),
                ("start", "ex") => PB::start_ex(m, VP2::from_pos(p)),
                ("start", _) => {
                    let mut b = PB::new(m);
                    b.move_to_new(p);
                    b
                }
                ("startat", _) => PB::start_at(m, id()),
                _ => PB::start_at_edge(m, id()),
            }
        });
        match pb {
            Err(e) => {
                crate::curved::fail(&mut ev, e);
                r.record(&ev);
                return;
            }
            Ok(mut b) => {
                ev["b2"] = pen(&b);
                ev["m2"] = project_p(b.mesh());
                r.record(&ev);
                if !draw(&mut b, src, r, rng) {
                    return;
                }
            }
        }
    }
}
/// One path. False if there is nothing more to do.
fn draw(b: &mut PB, src: &mut dyn Source, r: &mut Run, rng: &mut Rng) -> bool {
    loop {
        let w = view_of::<MT>(b.mesh());
        if !w.sane() {
            return false;
        }
        let pb = pen(b);
        let Some(o) = src.next(&w, &pb, rng) else { return false };
        let a: Vec<i64> = o[1..].iter().filter_map(|x| x.as_i64()).collect();
        let name = o[0].as_str().unwrap().to_string();
        let how = match name.as_str() {
            "line" => *rng.pick(&["pos", "ex", "quad", "cubic", "auto"]),
            "lineto" => *rng.pick(&["id", "ex", "quad", "cubic"]),
            "fill" => "",
            _ => return true,
        };
        let (p, t) = r.fresh();
        let sv = pb["sv"].as_i64().unwrap();
        let to = a.first().map(|x| (*x - 1) as I).unwrap_or(0);
        // asking for a new vertex where the path started gives the start itself
        let (name, how, p, a) = if name == "lineto" && a[0] == sv && how == "id" && rng.chance(1, 2) {
            ("lineto".to_string(), "auto", b.mesh().vertex(to).pos(), a)
        } else {
            (name, how, p, a)
        };
        let (c0, c1) = match how {
            "ex" => (curve(rng), curve(rng)),
            "quad" => (CurvedEdgeType::QuadraticBezier(at(rng)), CurvedEdgeType::Linear),
            "cubic" => (CurvedEdgeType::CubicBezier(at(rng), at(rng)), CurvedEdgeType::Linear),
            _ => (CurvedEdgeType::Linear, CurvedEdgeType::Linear),
        };
        let mut ev = event(&name, how, &a, project_p(b.mesh()), pb);
        ev["t"] = json!([if name == "line" { t } else { 0 }, bent(&c0), bent(&c1)]);
        let res = guard(&ev, || {
            match (name.as_str(), how, &c0) {
                ("fill", _, _) => {
                    let f = b.close(Default::default());
                    return if f == <I as IndexType>::max() { 0 } else { f as i64 + 1 };
                }
                ("line", "pos", _) => { b.line(p); }
                ("line", "ex", _) => { b.line_ex(VP2::from_pos(p), ep(&c0), ep(&c1)); }
                ("line", "quad", CurvedEdgeType::QuadraticBezier(c)) => { b.quad(*c, p); }
                ("line", "cubic", CurvedEdgeType::CubicBezier(c, d)) => { b.cubic(*c, *d, p); }
                ("lineto", "ex", _) => { b.line_to_ex(to, ep(&c0), ep(&c1)); }
                ("lineto", "quad", CurvedEdgeType::QuadraticBezier(c)) => { b.quad_to(*c, to); }
                ("lineto", "cubic", CurvedEdgeType::CubicBezier(c, d)) => { b.cubic_to(*c, *d, to); }
                (_, "auto", _) => {
                    let v = b.add_vertex_autoclose(p);
                    b.line_to(v);
                }
                _ => { b.line_to(to); }
            }
            0
        });
        match res {
            Ok(f) => {
                ev["r"] = json!(f);
                ev["b2"] = pen(b);
                ev["m2"] = project_p(b.mesh());
                r.record(&ev);
            }
            Err(e) => {
                crate::curved::fail(&mut ev, e);
                r.record(&ev);
                return false;
            }
        }
    }
}

/// A drawing: closed paths through distinct points, written down in one of many ways.
fn drawing(rng: &mut Rng) {
    let mut m = MC::new();
    if rng.chance(1, 3) {
        // importing into a mesh with something in it
        let mut r = Run { tag: 2000, quiet: true };
        perform(&mut m, &mut Chance { left: 6, sane: false }, &mut r, rng);
        if !view_of::<MT>(&m).sane() {
            return;
        }
    }
    let mut free: Vec<(i64, i64)> = (0..64).flat_map(|x| (0..64).map(move |y| (x, y))).collect();
    rng.shuffle(&mut free);
    let taken: Vec<i64> = m.vertices().map(|v| code(v.pos().x as f64, v.pos().y as f64)).collect();
    free.retain(|p| !taken.contains(&code(p.0 as f64, p.1 as f64)));
    let (mut text, mut t, mut depth) = (String::new(), vec![], 0);
    let attrs = [" fill='none' stroke='black'", " fill='red'", "", " stroke='#123456' fill='blue'"];
    for _ in 0..rng.range(1, 3) {
        let n = rng.range(3, 6) as usize;
        let pts: Vec<(i64, i64)> = free.drain(..n).collect();
        let back = rng.chance(1, 2); // an explicit last segment
        let mut d = String::new();
        let mut cs = vec![];
        let (mut cx, mut cy) = pts[0];
        let mut hidden = false;
        d += &format!("M {} {}", cx, cy);
        for i in 1..=(if back { n } else { n - 1 }) {
            let (x, y) = pts[i % n];
            let rel = rng.chance(1, 3);
            let comma = rng.chance(1, 2);
            let w = |d: &mut String, c: char, ps: &[(i64, i64)]| {
                d.push(if rel { c.to_ascii_lowercase() } else { c });
                for (k, (a, b)) in ps.iter().enumerate() {
                    let (a, b) = if rel { (a - cx, b - cy) } else { (*a, *b) };
                    *d += &format!("{}{}{}{}", if k > 0 { " " } else { "" }, a, if comma { "," } else { " " }, b);
                }
            };
            let any = |rng: &mut Rng| (rng.range(0, 63), rng.range(0, 63));
            match rng.below(4) {
                0 | 1 if y == cy => {
                    d += &if rel { format!("h{}", x - cx) } else { format!("H {}", x) };
                    cs.push(0)
                }
                0 | 1 => {
                    w(&mut d, 'L', &[(x, y)]);
                    cs.push(0)
                }
                2 => {
                    let mut r2 = Rng::new((x * 64 + y + i as i64 * 4096) as u64);
                    let c = any(&mut r2);
                    w(&mut d, 'Q', &[c, (x, y)]);
                    cs.push(bent(&CurvedEdgeType::QuadraticBezier(v2(c.0 as f64, c.1 as f64))))
                }
                _ => {
                    let mut r2 = Rng::new((x * 64 + y + i as i64 * 4096 + 77) as u64);
                    let (c, e) = (any(&mut r2), any(&mut r2));
                    w(&mut d, 'C', &[c, e, (x, y)]);
                    cs.push(bent(&CurvedEdgeType::CubicBezier(v2(c.0 as f64, c.1 as f64), v2(e.0 as f64, e.1 as f64))))
                }
            }
            (cx, cy) = (x, y);
        }
        while cs.len() < n {
            cs.push(0);
        }
        if rng.chance(2, 3) {
            d += *rng.pick(&["Z", " z"]);
        }
        if rng.chance(1, 3) {
            text += "<g>";
            depth += 1;
        }
        let mut a = rng.pick(&attrs).to_string();
        if rng.chance(1, 8) {
            a += " visibility='hidden'";
            hidden = true;
        }
        text += &format!("<path d='{}'{}/>", d, a);
        if depth > 0 && rng.chance(1, 2) {
            text += "</g>";
            depth -= 1;
        }
        if !hidden {
            t.push(json!({"vp": pts.iter().map(|p| code(p.0 as f64, p.1 as f64)).collect::<Vec<_>>(), "ep": cs}));
        }
    }
    text += &"</g>".repeat(depth);
    let text = format!("<svg xmlns='http://www.w3.org/2000/svg' width='64' height='64'>{}</svg>", text);
    let text = match rng.below(40) {
        // nothing at all
        0 if t.is_empty() => String::new(),
        1 => { t.clear(); "<!-- nothing -->".to_string() }
        _ => text,
    };
    let empty = m.num_vertices() == 0 && m.num_edges() == 0;
    let how = if empty && rng.chance(1, 2) { "from" } else { "into" };
    let mut ev = event("svg", how, &[], project_p(&m), no_pen());
    ev["t"] = json!(t);
    ev["text"] = json!(text);
    match guard(&ev, || {
        if how == "from" {
            let n: MC = BackendSVG::<MT>::from_svg(&text);
            m = n;
        } else {
            BackendSVG::<MT>::import_svg(&mut m, &text);
        }
    }) {
        Ok(()) => ev["m2"] = project_p(&m),
        Err(e) => crate::curved::fail(&mut ev, e),
    }
    emit(&ev);
}
pub fn run(rng: &mut Rng, path: Option<&str>, runs: usize) {
    let text = path.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    for line in text.lines() {
        if let Ok(Value::Array(ops)) = serde_json::from_str::<Value>(line) {
            perform(&mut MC::new(), &mut Fixed(&ops, 0), &mut Run { tag: 0, quiet: false }, rng);
        }
    }
    for i in 0..runs {
        let mut left = rng.range(8, 40) as usize;
        let mut m = MC::new();
        if i % 2 == 0 {
            // on a mesh from a random history
            let mut n = 0;
            let stop = rng.below(25);
            let mut last = None;
            all(rng, None, 1, 20, &mut |x, _| { if n <= stop { last = Some(x.clone()) }; n += 1 });
            if let Some(x) = last { m = x }
            left = left.min(20);
        }
        perform(&mut m, &mut Chance { left, sane: false }, &mut Run { tag: 1000, quiet: false }, rng);
    }
    for _ in 0..runs * 4 {
        drawing(rng);
    }
}
