//! Text laid out as faces: fonts are made up here, in both outline formats.
use crate::curved::{MC, MT, P2};
use crate::plane::fi;
use crate::tm::*;
use crate::util::*;
use procedural_modelling::mesh::Font;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

/// A corner and the control points of the curve to the next one.
type Corner = (i64, i64, Vec<i64>);
#[derive(Clone)]
struct Glyph {
    adv: i64,
    out: Vec<Vec<Corner>>,
}
struct Face {
    gl: Vec<Glyph>,
    kern: Vec<[i64; 3]>,
    em: i64,
    up: i64,
    down: i64,
}
fn w16(b: &mut Vec<u8>, x: i64) {
    b.extend(((x as i32) as i16 as u16).to_be_bytes());
}
fn w32(b: &mut Vec<u8>, x: u32) {
    b.extend(x.to_be_bytes());
}
fn cff_index(items: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![];
    w16(&mut b, items.len() as i64);
    if items.is_empty() {
        return b;
    }
    b.push(4);
    let mut o = 1u32;
    w32(&mut b, o);
    for i in items {
        o += i.len() as u32;
        w32(&mut b, o);
    }
    for i in items {
        b.extend(i);
    }
    b
}
fn charstring(g: &Glyph, back: bool) -> Vec<u8> {
    let mut b = vec![];
    let (mut cx, mut cy) = (0, 0);
    let mut num = |b: &mut Vec<u8>, x: i64| {
        b.push(28);
        w16(b, x)
    };
    for c in &g.out {
        let go = |b: &mut Vec<u8>, num: &mut dyn FnMut(&mut Vec<u8>, i64), cx: &mut i64, cy: &mut i64, x: i64, y: i64| {
            num(b, x - *cx);
            num(b, y - *cy);
            (*cx, *cy) = (x, y);
        };
        go(&mut b, &mut num, &mut cx, &mut cy, c[0].0, c[0].1);
        b.push(21);
        for i in 0..c.len() {
            let to = &c[(i + 1) % c.len()];
            if c[i].2.is_empty() {
                if i + 1 < c.len() || back {
                    go(&mut b, &mut num, &mut cx, &mut cy, to.0, to.1);
                    b.push(5);
                }
            } else {
                let k = &c[i].2;
                go(&mut b, &mut num, &mut cx, &mut cy, k[0], k[1]);
                go(&mut b, &mut num, &mut cx, &mut cy, k[2], k[3]);
                go(&mut b, &mut num, &mut cx, &mut cy, to.0, to.1);
                b.push(8);
            }
        }
    }
    b.push(14);
    b
}
fn glyf(g: &Glyph, twice: bool) -> Vec<u8> {
    let mut b = vec![];
    if g.out.is_empty() {
        return b;
    }
    w16(&mut b, g.out.len() as i64);
    let (mut pts, mut ends) = (vec![], vec![]);
    for c in &g.out {
        for (x, y, k) in c {
            pts.push((*x, *y, true));
            if twice {
                pts.push((*x, *y, true));
            }
            if !k.is_empty() {
                pts.push((k[0], k[1], false));
            }
        }
        ends.push(pts.len() - 1);
    }
    for f in [pts.iter().map(|p| p.0).min(), pts.iter().map(|p| p.1).min(), pts.iter().map(|p| p.0).max(), pts.iter().map(|p| p.1).max()] {
        w16(&mut b, f.unwrap());
    }
    for e in ends {
        w16(&mut b, e as i64);
    }
    w16(&mut b, 0);
    for p in &pts {
        b.push(p.2 as u8);
    }
    let (mut x, mut y) = (0, 0);
    for p in &pts {
        w16(&mut b, p.0 - x);
        x = p.0;
    }
    for p in &pts {
        w16(&mut b, p.1 - y);
        y = p.1;
    }
    if b.len() % 2 == 1 {
        b.push(0);
    }
    b
}
/// The character of each glyph: blanks, other scripts and beyond 16 bits; the first one is in no font.
const NAMES: [char; 6] = ['?', ' ', 'A', '\u{df}', '\u{4e2d}', '\u{1d11e}'];
fn font_file(f: &Face, cubic: bool, odd: bool) -> Vec<u8> {
    let n = f.gl.len() as i64;
    let mut head = vec![];
    w32(&mut head, 0x10000);
    w32(&mut head, 0x10000);
    w32(&mut head, 0);
    w32(&mut head, 0x5F0F3CF5);
    w16(&mut head, 0);
    w16(&mut head, f.em);
    head.extend([0; 16]);
    for x in [0, 0, 1000, 1000, 0, 8, 2, 1, 0] {
        w16(&mut head, x);
    }
    let mut hhea = vec![];
    w32(&mut hhea, 0x10000);
    w16(&mut hhea, f.up);
    w16(&mut hhea, -f.down);
    hhea.extend([0; 26]);
    w16(&mut hhea, n);
    let mut maxp = vec![];
    w32(&mut maxp, 0x5000);
    w16(&mut maxp, n);
    let mut hmtx = vec![];
    for g in &f.gl {
        w16(&mut hmtx, g.adv);
        w16(&mut hmtx, 0);
    }
    let mut cmap = vec![];
    for x in [0, 1, 3, 10] {
        w16(&mut cmap, x);
    }
    w32(&mut cmap, 12);
    w16(&mut cmap, 12);
    w16(&mut cmap, 0);
    for x in [16 + 12 * (n as u32 - 1), 0, n as u32 - 1] {
        w32(&mut cmap, x);
    }
    for g in 1..n {
        for x in [NAMES[g as usize] as u32, NAMES[g as usize] as u32, g as u32] {
            w32(&mut cmap, x);
        }
    }
    let mut t: Vec<(&[u8; 4], Vec<u8>)> = vec![];
    if cubic {
        let cs: Vec<Vec<u8>> = f.gl.iter().map(|g| charstring(g, odd)).collect();
        let mut b = vec![1, 0, 4, 4];
        b.extend(cff_index(&[b"Made".to_vec()]));
        let at = b.len() + 2 + 1 + 8 + 6 + 2 + 2;
        let mut top = vec![29];
        w32(&mut top, at as u32);
        top.push(17);
        b.extend(cff_index(&[top]));
        b.extend(cff_index(&[]));
        b.extend(cff_index(&[]));
        assert_eq!(b.len(), at);
        b.extend(cff_index(&cs));
        t.push((b"CFF ", b));
    }
    t.push((b"cmap", cmap));
    if !cubic {
        let (mut all, mut loca) = (vec![], vec![]);
        for g in &f.gl {
            w32(&mut loca, all.len() as u32);
            all.extend(glyf(g, odd));
        }
        w32(&mut loca, all.len() as u32);
        t.push((b"glyf", all));
        t.push((b"head", head));
        t.push((b"hhea", hhea));
        t.push((b"hmtx", hmtx));
        if !f.kern.is_empty() {
            t.push((b"kern", kern(f)));
        }
        t.push((b"loca", loca));
    } else {
        t.push((b"head", head));
        t.push((b"hhea", hhea));
        t.push((b"hmtx", hmtx));
        if !f.kern.is_empty() {
            t.push((b"kern", kern(f)));
        }
    }
    t.push((b"maxp", maxp));
    let mut b = vec![];
    w32(&mut b, if cubic { 0x4F54544F } else { 0x10000 });
    for x in [t.len() as i64, 0, 0, 0] {
        w16(&mut b, x);
    }
    let mut at = 12 + 16 * t.len();
    for (name, d) in &t {
        b.extend(*name);
        w32(&mut b, 0);
        w32(&mut b, at as u32);
        w32(&mut b, d.len() as u32);
        at += d.len().div_ceil(4) * 4;
    }
    for (_, d) in &t {
        b.extend(d);
        b.extend(vec![0; d.len().div_ceil(4) * 4 - d.len()]);
    }
    b
}
fn kern(f: &Face) -> Vec<u8> {
    let mut k = f.kern.clone();
    k.sort();
    let mut b = vec![];
    for x in [0, 1, 0, 14 + 6 * k.len() as i64, 1, k.len() as i64, 0, 0, 0] {
        w16(&mut b, x);
    }
    for p in k {
        for x in p {
            w16(&mut b, x);
        }
    }
    b
}
/// What the mesh holds, in units of 1/100 of the font's units.
fn drawn(m: &MC, unit: f64) -> Value {
    let mut v = project_with::<MT>(m, |_| 0, |_| 0, |_| 0);
    let p = |p: &P2| vec![fi(p.x as f64 / unit, 100.0), fi(p.y as f64 / unit, 100.0)];
    let n = v["vp"].as_array().unwrap().len();
    let mut pos = vec![vec![0, 0]; n];
    for x in m.vertices() {
        pos[x.id() as usize] = p(&x.pos());
    }
    let mut cu: Vec<Vec<i64>> = vec![vec![]; v["ep"].as_array().unwrap().len()];
    for e in m.edges() {
        cu[e.id() as usize] = match e.curve_type() {
            CurvedEdgeType::Linear => vec![],
            CurvedEdgeType::QuadraticBezier(c) => p(&c),
            CurvedEdgeType::CubicBezier(c, d) => [p(&c), p(&d)].concat(),
        };
    }
    v["pos"] = json!(pos);
    v["cu"] = json!(cu);
    v
}
fn event(f: &Face, texts: &[Vec<i64>], size: i64, cubic: bool, odd: bool) {
    let data = font_file(f, cubic, odd);
    let font: Vec<Value> = f.gl.iter().map(|g| json!({"adv": g.adv, "out": g.out})).collect();
    let mut v = json!({"op": "text", "font": font, "kern": f.kern, "texts": texts, "size": [f.em, f.up, f.down, size],
        "a": [cubic as i64, odd as i64], "st": "ok", "r": {}});
    let name = |g: i64| if g == 0 && odd { '\n' } else { NAMES[g as usize] };
    let s = size as f32 / 4.0;
    let unit = s as f64 * 4.0 / 3.0 / f.em as f64;
    match guard(&v, || {
        let mut m = MC::new();
        let mut t = Font::new(&data, if odd { 7.0 } else { s });
        t.set_scale(s);
        for x in texts {
            t.layout_text::<2, MT>(&x.iter().map(|g| name(*g)).collect::<String>(), &mut m);
        }
        let adv: Vec<i64> = (0..f.gl.len()).map(|g| fi(t.get_advance(name(g as i64)) as f64 / unit, 100.0)).collect();
        json!({"m": drawn(&m, unit), "adv": adv})
    }) {
        Ok(r) => v["r"] = r,
        Err(e) => {
            v["st"] = "panic".into();
            v["msg"] = e.into();
        }
    }
    emit(&v);
}
fn made_up(rng: &mut Rng, cubic: bool) -> Glyph {
    let adv = rng.range(0, 60);
    let mut out = vec![];
    if rng.chance(5, 6) {
        for _ in 0..rng.range(1, 3) {
            let mut pts: Vec<(i64, i64)> = vec![];
            let n = rng.range(3, 7) as usize;
            while pts.len() < n {
                let p = (rng.range(-5, 60), rng.range(-20, 60));
                if !pts.contains(&p) {
                    pts.push(p);
                }
            }
            out.push(
                pts.iter()
                    .map(|p| {
                        let k = if rng.chance(1, 2) { 0 } else if cubic { 4 } else { 2 };
                        (p.0, p.1, (0..k).map(|_| rng.range(-9, 70)).collect())
                    })
                    .collect(),
            );
        }
    }
    Glyph { adv, out }
}
fn list(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default()
}
pub fn run(rng: &mut Rng, path: Option<&str>, runs: usize) {
    let text = path.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    for line in text.lines() {
        let Ok(o) = serde_json::from_str::<Value>(line) else { continue };
        let gl = o["font"].as_array().unwrap().iter().map(|g| Glyph {
            adv: g["adv"].as_i64().unwrap(),
            out: g["out"].as_array().unwrap().iter().map(|c| {
                c.as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap(), list(&p[2]))).collect()
            }).collect(),
        }).collect();
        let kern = o["kern"].as_array().unwrap().iter().map(|k| { let k = list(k); [k[0], k[1], k[2]] }).collect();
        let f = Face { gl, kern, em: 64, up: 48, down: 16 };
        let cubic = f.gl.iter().any(|g| g.out.iter().flatten().any(|p| p.2.len() == 4));
        event(&f, &[list(&o["text"])], 48, cubic, rng.chance(1, 3));
    }
    for _ in 0..runs {
        let cubic = rng.chance(1, 2);
        let n = rng.range(2, 5);
        let gl: Vec<Glyph> = (0..n).map(|_| made_up(rng, cubic)).collect();
        let mut kern: Vec<[i64; 3]> = vec![];
        for a in 0..n {
            for b in 0..n {
                if rng.chance(1, 3) {
                    kern.push([a, b, rng.range(-20, 20)]);
                }
            }
        }
        let f = Face { gl, kern, em: *rng.pick(&[64, 100, 1000, 2048]), up: rng.range(20, 90), down: rng.range(0, 40) };
        let texts: Vec<Vec<i64>> = (0..rng.range(1, 2)).map(|_| (0..rng.range(0, 5)).map(|_| rng.below(n as usize) as i64).collect()).collect();
        event(&f, &texts, *rng.pick(&[1, 3, 4, 10, 48, 100]), cubic, rng.chance(1, 3));
    }
}
