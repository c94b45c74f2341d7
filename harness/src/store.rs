//! The element store against its specification: the real element types and a plain one.
use crate::tm::*;
use crate::util::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
struct Plain<I: IndexType> {
    id: I,
    val: i64,
}
impl<I: IndexType> Deletable<I> for Plain<I> {
    fn is_deleted(&self) -> bool {
        self.id == <I as IndexType>::max()
    }
    fn delete(&mut self) {
        assert!(self.id != <I as IndexType>::max());
        self.id = <I as IndexType>::max();
    }
    fn set_id(&mut self, id: I) {
        assert!(self.id == <I as IndexType>::max());
        self.id = id;
    }
    fn allocate() -> Self {
        Plain { id: <I as IndexType>::max(), val: 0 }
    }
}

trait Item<I: IndexType>: Deletable<I> + Clone {
    fn mk(x: i64) -> Self;
    fn val(&self) -> i64;
    fn put(&mut self, x: i64);
    fn key(&self) -> I;
}
impl<I: IndexType> Item<I> for Plain<I> {
    fn mk(x: i64) -> Self {
        Plain { id: <I as IndexType>::max(), val: x }
    }
    fn val(&self) -> i64 {
        self.val
    }
    fn put(&mut self, x: i64) {
        self.val = x
    }
    fn key(&self) -> I {
        self.id
    }
}
macro_rules! item {
    ($t:ty, $i:ty, $mk:expr) => {
        impl Item<$i> for $t {
            fn mk(x: i64) -> Self {
                $mk(x)
            }
            fn val(&self) -> i64 {
                self.payload().tag
            }
            fn put(&mut self, x: i64) {
                self.payload_mut().tag = x
            }
            fn key(&self) -> $i {
                self.id()
            }
        }
    };
}
item!(HalfEdgeImpl<TT>, E, |x| HalfEdge::<TT>::new(9000, 9001, 9002, 3, 4, ep(x)));
item!(HalfEdgeVertexImpl<TT>, V, |x| HalfEdgeVertexImpl::<TT>::new(0, vp(x)));
item!(HalfEdgeFaceImpl<TT>, F, |x| HalfEdgeFaceImpl::<TT>::new(0, false, fp(x)));

struct S<T: Item<I>, I: IndexType> {
    d: DeletableVector<T, I>,
    idx: u64,
    pending: Vec<i64>,
}
impl<T: Item<I>, I: IndexType> S<T, I> {
    fn root(kind: &str) -> Self {
        let d = DeletableVector::<T, I>::new();
        let mut ev = json!({"op":"init","k":kind,"a":[],"p":0,"r":[],"st":"ok","w":{}});
        ev["w"] = Self::look(&d, 0);
        S { idx: emit(&ev), d, pending: vec![] }
    }
    fn look(d: &DeletableVector<T, I>, top: i64) -> Value {
        let it: Vec<_> = d.iter().map(|x| vec![sid(x.key()), x.val()]).collect();
        let mut d2 = d.clone();
        let im: Vec<_> = d2.iter_mut().map(|x| vec![sid(x.key()), x.val()]).collect();
        let has: Vec<_> = (0..top + 4).filter(|&i| d.has(I::new(i as usize))).map(|i| i + 1).collect();
        let get: Vec<_> = has.iter().map(|&i| d.get(I::new(i as usize - 1)).val()).collect();
        let key: Vec<_> = has.iter().map(|&i| sid(d.get(I::new(i as usize - 1)).key())).collect();
        json!({"it":it,"im":im,"has":has,"get":get,"key":key,"len":d.len(),"cap":d.capacity()})
    }
    fn step(&self, o: &str, a: &[i64]) -> Option<Self> {
        let mut ev = json!({"op":o,"a":a,"p":self.idx,"r":[],"st":"ok","w":{}});
        let mut d = self.d.clone();
        let mut pending = self.pending.clone();
        let i = |x: i64| I::new(x as usize - 1);
        let r = guard(&ev, || {
            let r = match o {
                "push" => vec![sid(d.push(T::mk(a[0])))],
                "alloc" => {
                    let x = sid(d.allocate());
                    pending.push(x);
                    vec![x]
                }
                "set" => {
                    // fills the allocated slot that has been waiting longest
                    let x = pending.remove(0);
                    d.set(i(x), T::mk(a[0]));
                    vec![x]
                }
                "del" => {
                    d.delete_internal(i(a[0]));
                    vec![]
                }
                "put" => {
                    d.get_mut(i(a[0])).put(a[1]);
                    vec![]
                }
                "touch" => {
                    d.iter_mut().for_each(|x| x.put(x.val() + 100));
                    vec![]
                }
                "clear" => {
                    d.clear();
                    pending.clear();
                    vec![]
                }
                x => panic!("unknown {x}"),
            };
            (r, Self::look(&d, d.capacity() as i64))
        });
        match r {
            Ok((r, w)) => {
                ev["r"] = json!(r);
                ev["w"] = w;
                Some(S { idx: emit(&ev), d, pending })
            }
            Err(e) => {
                ev["st"] = "panic".into();
                ev["msg"] = e.into();
                emit(&ev);
                None
            }
        }
    }
}

fn replay<T: Item<I>, I: IndexType>(s: &S<T, I>, t: &Trie) {
    for (o, k) in t.kids.values() {
        let a: Vec<i64> = o.as_array().unwrap()[1..].iter().map(|x| x.as_i64().unwrap()).collect();
        let mut a = a;
        let name = o[0].as_str().unwrap();
        if name == "del" || name == "put" {
            // the specification names an element by its rank among the live ones
            match s.d.iter().nth(a[0] as usize - 1) {
                Some(x) => a[0] = sid(x.key()),
                None => continue,
            }
        }
        if name == "set" && s.pending.is_empty() {
            continue;
        }
        if let Some(x) = s.step(name, &a) {
            replay(&x, k);
        }
    }
}

fn random<T: Item<I>, I: IndexType>(kind: &str, rng: &mut Rng, len: usize) {
    let mut s = S::<T, I>::root(kind);
    let grow = rng.below(3);
    // a long history fills the store, empties most of it, and fills it again
    let phase = if len > 60 { len / 3 } else { len + 1 };
    for n in 0..len {
        let live: Vec<i64> = s.d.iter().map(|x| sid(x.key())).collect();
        let v = n as i64 + 1;
        let dice = rng.below(20 + 4 * grow);
        let dice = if phase > len || dice == 0 { dice } else if (n / phase) % 2 == 0 || live.is_empty() { 20 } else { 5 };
        let (o, a) = match dice {
            0 | 1 => ("alloc", vec![]),
            2 | 3 if !s.pending.is_empty() => ("set", vec![v]),
            4..=11 if !live.is_empty() => ("del", vec![*rng.pick(&live)]),
            12 | 13 if !live.is_empty() => ("put", vec![*rng.pick(&live), v]),
            14 if rng.chance(1, 3) => ("touch", vec![]),
            15 if rng.chance(1, 12) => ("clear", vec![]),
            _ => ("push", vec![v]),
        };
        match s.step(o, &a) {
            Some(x) => s = x,
            None => break,
        }
    }
}

pub fn run(rng: &mut Rng, scripts: Option<&str>, n: usize) {
    if let Some(p) = scripts {
        let t = Trie::read(p);
        replay(&S::<Plain<u8>, u8>::root("plain8"), &t);
        replay(&S::<HalfEdgeImpl<TT>, E>::root("edge"), &t);
        replay(&S::<HalfEdgeVertexImpl<TT>, V>::root("vertex"), &t);
        replay(&S::<HalfEdgeFaceImpl<TT>, F>::root("face"), &t);
    }
    for k in 0..n {
        match k % 4 {
            0 => random::<Plain<u32>, u32>("plain32", rng, 60),
            1 => random::<HalfEdgeImpl<TT>, E>("edge", rng, 60),
            2 => random::<HalfEdgeVertexImpl<TT>, V>("vertex", rng, 60),
            _ => random::<HalfEdgeFaceImpl<TT>, F>("face", rng, 60),
        }
    }
    for k in 0..n / 60 + 2 {
        let len = 100 + 10 * rng.below(6);
        match k % 4 {
            0 => random::<Plain<u32>, u32>("plain32", rng, len),
            1 => random::<HalfEdgeImpl<TT>, E>("edge", rng, len),
            2 => random::<HalfEdgeVertexImpl<TT>, V>("vertex", rng, len),
            _ => random::<HalfEdgeFaceImpl<TT>, F>("face", rng, len),
        }
    }
}
