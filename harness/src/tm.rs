//! A mesh type whose every element carries a tag, so that the trace shows which payload ended up where.
use crate::backend::*;
use procedural_modelling::prelude::*;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct TT;

#[derive(Clone, PartialEq, Debug, Copy)]
pub struct TVP {
    pub p: VP3,
    pub tag: i64,
}
#[derive(Clone, PartialEq, Debug, Copy, Default)]
pub struct TEP {
    pub tag: i64,
}
#[derive(Clone, PartialEq, Eq, Debug, Copy, Default)]
pub struct TFP {
    pub tag: i64,
}
pub type Mesh = HalfEdgeMeshImpl<TT>;
pub type V = u32;
pub type E = usize;
pub type F = u16;

impl MeshType for TT {
    type E = E;
    type V = V;
    type F = F;
    type EP = TEP;
    type VP = TVP;
    type FP = TFP;
    type MP = EmptyMeshPayload<Self>;
    type Mesh = Mesh;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl EuclideanMeshType<3> for TT {
    type S = Sc;
    type Vec = V3;
    type Vec2 = V2;
    type Trans = A3;
    type Rot = R3;
    type Poly = Poly;
}
impl HalfEdgeImplMeshType for TT {}
impl MeshTypeHalfEdge for TT {}
impl MeshType3D for TT {}

impl VertexPayload for TVP {
    fn allocate() -> Self {
        TVP { p: VertexPayload::allocate(), tag: 0 }
    }
}
impl EdgePayload for TEP {
    fn allocate() -> Self {
        TEP { tag: 0 }
    }
    fn is_empty(&self) -> bool {
        self.tag == 0
    }
}
impl DefaultEdgePayload for TEP {}
impl FacePayload for TFP {
    fn allocate() -> Self {
        TFP { tag: 0 }
    }
}
impl DefaultFacePayload for TFP {}

impl Transformable<3> for TVP {
    type S = Sc;
    type Vec = V3;
    type Trans = A3;
    type Rot = R3;
    fn transform(&mut self, t: &Self::Trans) -> &mut Self {
        self.p.transform(t);
        self
    }
    fn translate(&mut self, t: &Self::Vec) -> &mut Self {
        self.p.translate(t);
        self
    }
    fn lerp(&mut self, o: &Self, t: Sc) -> &mut Self {
        self.p.lerp(&o.p, t);
        self
    }
}
macro_rules! tr {
    ($t:ty) => {
        impl Transformable<3> for $t {
            type S = Sc;
            type Vec = V3;
            type Trans = A3;
            type Rot = R3;
            fn transform(&mut self, _: &Self::Trans) -> &mut Self {
                self
            }
            fn lerp(&mut self, _: &Self, _: Sc) -> &mut Self {
                self
            }
        }
    };
}
tr!(TEP);
tr!(TFP);
impl HasPosition<3, V3> for TVP {
    type S = Sc;
    fn pos(&self) -> &V3 {
        self.p.pos()
    }
    fn from_pos(v: V3) -> Self {
        TVP { p: VP3::from_pos(v), tag: 0 }
    }
    fn set_pos(&mut self, v: V3) {
        self.p.set_pos(v)
    }
}
impl HasNormal<3, V3> for TVP {
    type S = Sc;
    fn normal(&self) -> &V3 {
        self.p.normal()
    }
    fn set_normal(&mut self, v: V3) {
        self.p.set_normal(v)
    }
}

pub fn vp(tag: i64) -> TVP {
    vpx(tag, 0, 0, 0)
}
pub fn vpx(tag: i64, x: i64, y: i64, z: i64) -> TVP {
    TVP {
        p: VP3::from_pos(v3(x as f64, y as f64, z as f64)),
        tag,
    }
}
pub fn ep(tag: i64) -> TEP {
    TEP { tag }
}
pub fn fp(tag: i64) -> TFP {
    TFP { tag }
}

/// spec id: 1-based, 0 = none
pub fn sid<I: IndexType>(i: I) -> i64 {
    if i == <I as IndexType>::max() {
        0
    } else {
        i.index() as i64 + 1
    }
}

fn put(v: &mut Vec<i64>, i: usize, x: i64) {
    while v.len() <= i {
        v.push(-1)
    }
    v[i] = x;
}

/// Projection of a mesh onto the specification's state, through the public accessors only.
pub fn project_with<T>(
    m: &T::Mesh,
    ept: impl Fn(&T::EP) -> i64,
    vpt: impl Fn(&T::VP) -> i64,
    fpt: impl Fn(&T::FP) -> i64,
) -> Value
where
    T: HalfEdgeImplMeshType,
{
    let (mut nx, mut pv, mut tw, mut og, mut fc, mut epv) =
        (vec![], vec![], vec![], vec![], vec![], vec![]);
    for e in m.edges() {
        let i = e.id().index();
        put(&mut nx, i, sid(e.next_id()));
        put(&mut pv, i, sid(e.prev_id()));
        put(&mut tw, i, sid(e.twin_id()));
        put(&mut og, i, sid(e.origin_id()));
        put(&mut fc, i, sid(e.face_id()));
        put(&mut epv, i, ept(e.payload()));
    }
    let (mut ve, mut vpv) = (vec![], vec![]);
    for v in m.vertices() {
        let i = v.id().index();
        put(&mut ve, i, sid(v.edge_id(m)));
        put(&mut vpv, i, vpt(v.payload()));
    }
    let (mut fe, mut fpv, mut fcu) = (vec![], vec![], vec![]);
    for f in m.faces() {
        let i = f.id().index();
        put(&mut fe, i, sid(f.edge_id()));
        put(&mut fpv, i, fpt(f.payload()));
        put(&mut fcu, i, f.may_be_curved() as i64);
    }
    json!({"nx":nx,"pv":pv,"tw":tw,"og":og,"fc":fc,"ep":epv,"ve":ve,"vp":vpv,"fe":fe,"fp":fpv,"fcu":fcu})
}
pub fn project(m: &Mesh) -> Value {
    project_with::<TT>(m, |e| e.tag, |v| v.tag, |f| f.tag)
}
