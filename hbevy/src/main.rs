//! The drivers of ../harness on the types of the bevy extension, and what only that extension has.
macro_rules! shared {
    ($($m:ident $p:literal),*) => { $( #[path = $p] #[allow(dead_code)] mod $m; )* };
}
shared!(algebra "../../harness/src/algebra.rs", curved "../../harness/src/curved.rs", geo "../../harness/src/geo.rs", mesh "../../harness/src/mesh.rs",
    obs "../../harness/src/obs.rs", path "../../harness/src/path.rs", plane "../../harness/src/plane.rs", prim "../../harness/src/prim.rs",
    scene "../../harness/src/scene.rs", text "../../harness/src/text.rs", tm "../../harness/src/tm.rs", util "../../harness/src/util.rs");
mod backend;
mod maps;
mod render;
mod vectors;
use util::*;

fn main() {
    let (cmd, a) = args();
    open(&a.out, 8);
    let mut rng = Rng::new(a.seed);
    let t = a.thorough;
    match cmd.as_str() {
        "build" => {
            if let Some(s) = &a.scripts {
                mesh::replay(s, false);
            }
            mesh::histories(&mut rng, a.n.unwrap_or(300), if t { 40 } else { 30 }, if t { 80 } else { 50 }, 30);
        }
        "loft" => mesh::lofts(&mut rng, a.n.unwrap_or(300), 12, 90),
        "sub" => mesh::subs(&mut rng, a.n.unwrap_or(300), 14),
        "prim" => prim::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(200)),
        "flatten" => curved::all(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(200), 60, &mut curved::flatten),
        "isoc" => curved::all(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(200), 60, &mut curved::iso),
        "maps" => maps::run(&mut rng, a.n.unwrap_or(300)),
        "vectors" => vectors::run(&mut rng, a.n.unwrap_or(300)),
        "render" => render::run(&mut rng, a.n.unwrap_or(300)),
        "convert" => curved::all(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(200), 60, &mut curved::convert),
        "path" => path::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "text" => text::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "tile" => {
            // what is known to fail is looked at on the other backend
            let algs: Vec<&str> = geo::DIRECT.iter().chain(geo::FACE.iter()).chain(["delaunay"].iter()).cloned().filter(|a| !["ear", "earr", "EarClipping", "SweepDynamic"].contains(a)).collect();
            geo::tri(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300), &algs, if t { 24 } else { 14 }, 96, 40);
        }
        "plane" => plane::predicates(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "outlines" => plane::outlines(&mut rng, a.n.unwrap_or(300)),
        "corners" => plane::classify(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300)),
        "export" => scene::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300), false),
        "smooth" => scene::run(&mut rng, a.scripts.as_deref(), a.n.unwrap_or(300), true),
        x => panic!("unknown driver {x}"),
    }
    close();
    println!("{}", count());
}
