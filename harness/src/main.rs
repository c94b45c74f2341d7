mod algebra;
mod backend;
mod curved;
mod geo;
mod affine;
mod path;
mod sums;
mod text;
mod buf;
mod plane;
mod scene;
mod mesh;
mod obs;
mod prim;
mod store;
mod tm;
mod util;
use util::*;

fn main() {
    let (cmd, a) = args();
    open(&a.out, 8);
    let mut rng = Rng::new(a.seed);
    let t = a.thorough;
    match cmd.as_str() {
        "build" | "walk" | "query" | "check" | "net" | "iso" => {
            let md = ["build", "walk", "query", "check", "net", "iso"].iter().position(|&x| x == cmd).unwrap();
            obs::MODE.store(md as u8, std::sync::atomic::Ordering::SeqCst);
            if let Some(s) = &a.scripts {
                mesh::replay(s, false);
            }
            let n = a.n.unwrap_or(if t { 6000 } else { 700 });
            mesh::histories(&mut rng, n, if t { 40 } else { 30 }, if t { 80 } else { 50 }, [50, 50, 16, 40, 24, 16][md]);
        }
        "loft" => {
            if let Some(s) = &a.scripts {
                mesh::replay(s, true);
            }
            mesh::lofts(&mut rng, a.n.unwrap_or(300), 12, 90);
        }
        "sub" => {
            if let Some(s) = &a.scripts {
                mesh::replay(s, true);
            }
            mesh::subs(&mut rng, a.n.unwrap_or(300), 14);
        }
        "flatten" => curved::all(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(200), 60, &mut curved::flatten),
        "convert" => curved::all(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(200), 60, &mut curved::convert),
        "isoc" => curved::all(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(200), 60, &mut curved::iso),
        "prim" => prim::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(200)),
        "sweeps" => geo::sweeps(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "tile" | "minw" | "cdt" => {
            let algs: Vec<&str> = match cmd.as_str() {
                "tile" => geo::DIRECT.iter().chain(geo::FACE.iter()).chain(["delaunay"].iter()).cloned().collect(),
                "minw" => vec!["minw", "small", "MinWeight", "MinWeight"],
                _ => vec!["Delaunay", "delaunay", "Auto"],
            };
            geo::tri(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300), &algs, if t { 24 } else { 14 }, 96, if cmd == "minw" { 250 } else { 40 });
            if cmd == "minw" {
                // four corners: whatever algorithm is asked for
                geo::tri(&mut rng, None, a.n.unwrap_or(300), &geo::FACE, 4, 96, 0)
            }
        }
        "plane" => plane::predicates(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "outlines" => plane::outlines(&mut rng, a.n.unwrap_or(300)),
        "corners" => plane::classify(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "buffer" => buf::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "export" => scene::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300), false),
        "smooth" => scene::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300), true),
        "affine" => affine::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "path" => path::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "sums" => sums::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "text" => text::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "store" => store::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        x => panic!("unknown driver {x}"),
    }
    close();
    println!("{}", count());
}
