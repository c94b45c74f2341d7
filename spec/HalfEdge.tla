------------------------------ MODULE HalfEdge ------------------------------
(***************************************************************************)
(* The half-edge mesh: its state, what makes a state a mesh (Valid), and   *)
(* the effect of every building operation.                                 *)
(*                                                                         *)
(* A mesh is a record of sequences indexed by element id (1-based):        *)
(*   nx, pv, tw, og, fc, ep : next, previous, twin, origin, face, payload  *)
(*                            of each half-edge                            *)
(*   ve, vp                 : representative edge and payload of a vertex  *)
(*   fe, fp, fcu            : representative edge, payload, curved flag of *)
(*                            a face                                       *)
(* 0 means "none", -1 in nx/vp/fp.. marks an id that is not in use.        *)
(*                                                                         *)
(* Every operation X is given by                                           *)
(*   PreX(m, a)        when the operation's contract promises anything     *)
(*   DX(m, a, t, ids)  the delta it causes: the new elements and the links *)
(*                     that change. `ids` are the ids of the new elements: *)
(*                     the model chooses them (MCHalfEdge), the trace      *)
(*                     checker reads them off the observed mesh.           *)
(* Everything a delta does not mention must stay as it is.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dead == -1
Es(m) == {i \in 1..Len(m.nx) : m.nx[i] # Dead}
Vs(m) == {i \in 1..Len(m.vp) : m.vp[i] # Dead}
Fs(m) == {i \in 1..Len(m.fp) : m.fp[i] # Dead}

EmptyMesh == [nx |-> <<>>, pv |-> <<>>, tw |-> <<>>, og |-> <<>>, fc |-> <<>>, ep |-> <<>>,
              ve |-> <<>>, vp |-> <<>>, fe |-> <<>>, fp |-> <<>>, fcu |-> <<>>]

--------------------------------------------------------------------------
(* Walks *)
Tgt(m, e) == m.og[m.tw[e]]
RECURSIVE SegR(_, _, _, _)
SegR(f, e, last, acc) == IF e = last \/ Len(acc) > Len(f) THEN Append(acc, e)
                         ELSE SegR(f, f[e], last, Append(acc, e))
\* the edges from e to last (inclusive) following next
Seg(m, e, last) == SegR(m.nx, e, last, <<>>)
\* the whole cycle of e, starting at e
Cyc(m, e) == Seg(m, e, m.pv[e])
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE OrbLen(_, _, _, _)
OrbLen(f, e, first, n) == IF f[e] = first \/ n > Len(f) THEN n + 1 ELSE OrbLen(f, f[e], first, n + 1)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Bnd(m) == {e \in Es(m) : m.fc[e] = 0}
Out(m, v) == {e \in Es(m) : m.og[e] = v}
Adj(m, v, w) == \E e \in Es(m) : (m.og[e] = v /\ Tgt(m, e) = w) \/ (m.og[e] = w /\ Tgt(m, e) = v)
\* boundary corners: outgoing boundary edges
Corners(m, v) == {e \in Es(m) : m.og[e] = v /\ m.fc[e] = 0}
RECURSIVE CompR(_, _)
CompR(m, S) == LET T == S \cup {Tgt(m, e) : e \in {x \in Es(m) : m.og[x] \in S}}
               IN IF T = S THEN S ELSE CompR(m, T)
Comp(m, v) == CompR(m, {v})

--------------------------------------------------------------------------
(* What makes a state a consistent mesh. Layered, so that each layer may be evaluated given the former. *)
Refs(m) ==
  /\ Len(m.pv) = Len(m.nx) /\ Len(m.tw) = Len(m.nx) /\ Len(m.og) = Len(m.nx)
  /\ Len(m.fc) = Len(m.nx) /\ Len(m.ep) = Len(m.nx)
  /\ Len(m.ve) = Len(m.vp) /\ Len(m.fe) = Len(m.fp) /\ Len(m.fcu) = Len(m.fp)
  /\ LET E == Es(m) V == Vs(m) F == Fs(m) IN
     /\ \A e \in E : m.nx[e] \in E /\ m.pv[e] \in E /\ m.tw[e] \in E /\ m.og[e] \in V
                     /\ (m.fc[e] = 0 \/ m.fc[e] \in F)
     /\ \A v \in V : m.ve[v] = 0 \/ m.ve[v] \in E
     /\ \A f \in F : m.fe[f] \in E
Twins(m) == \A e \in Es(m) : m.tw[e] # e /\ m.tw[m.tw[e]] = e
Chains(m) == \A e \in Es(m) : m.pv[m.nx[e]] = e /\ m.nx[m.pv[e]] = e
Joints(m) == \A e \in Es(m) : m.og[m.nx[e]] = m.og[m.tw[e]]
CycleFaces(m) == \A e \in Es(m) : m.fc[m.nx[e]] = m.fc[e]
Reps(m) == /\ \A v \in Vs(m) : IF m.ve[v] = 0 THEN \A e \in Es(m) : m.og[e] # v ELSE m.og[m.ve[v]] = v
           /\ \A f \in Fs(m) : m.fc[m.fe[f]] = f
\* each face owns exactly one cycle
FaceCycles(m) ==
  LET F == Fs(m) IN
  SumOver([f \in F |-> OrbLen(m.nx, m.fe[f], m.fe[f], 0)], F) = Cardinality({e \in Es(m) : m.fc[e] # 0})
\* the edges around a vertex form one wheel
Wheel(m) == [i \in 1..Len(m.nx) |-> IF m.nx[i] = Dead THEN Dead ELSE m.nx[m.tw[i]]]
Wheels(m) ==
  LET V == {v \in Vs(m) : m.ve[v] # 0}  w == Wheel(m) IN
  SumOver([v \in V |-> OrbLen(w, m.ve[v], m.ve[v], 0)], V) = Cardinality(Es(m))

Links(m) == Refs(m) /\ Twins(m) /\ Chains(m) /\ Joints(m)
Valid(m) == Links(m) /\ CycleFaces(m) /\ Reps(m) /\ FaceCycles(m) /\ Wheels(m)

--------------------------------------------------------------------------
(* Deltas *)
None == [x \in {} |-> 0]
NoDelta == [newE |-> {}, newV |-> {}, newF |-> {}, delF |-> {}, delE |-> {}, delV |-> {},
            nx |-> None, pv |-> None, tw |-> None, og |-> None, fc |-> None, ep |-> None,
            vp |-> None, fp |-> None, fcu |-> None]
\* f agrees with g, changed as d says, on all of S
Upd(g, f, S, d) == \A i \in S : f[i] = IF i \in DOMAIN d THEN d[i] ELSE g[i]

\* The observed mesh m1 is m changed exactly as d says. Representatives may be chosen freely (Valid bounds them).
Elements(m, d, m1) ==
  /\ d.newE \cap Es(m) = {} /\ d.newV \cap Vs(m) = {} /\ d.newF \cap (Fs(m) \ d.delF) = {}
  /\ Es(m1) = (Es(m) \ d.delE) \cup d.newE
  /\ Vs(m1) = (Vs(m) \ d.delV) \cup d.newV
  /\ Fs(m1) = (Fs(m) \ d.delF) \cup d.newF
Conforms(m, d, m1) ==
  /\ Elements(m, d, m1)
  /\ LET E == Es(m1) IN /\ Upd(m.nx, m1.nx, E, d.nx) /\ Upd(m.pv, m1.pv, E, d.pv)
                        /\ Upd(m.tw, m1.tw, E, d.tw) /\ Upd(m.og, m1.og, E, d.og)
                        /\ Upd(m.fc, m1.fc, E, d.fc) /\ Upd(m.ep, m1.ep, E, d.ep)
  /\ Upd(m.vp, m1.vp, Vs(m1), d.vp)
  /\ Upd(m.fp, m1.fp, Fs(m1), d.fp) /\ Upd(m.fcu, m1.fcu, Fs(m1), d.fcu)

\* f defined as value c on the set S
On(S, c) == [x \in S |-> c]
E2(e1, e2, v, w, t1, t2, d) ==   \* two new twin half-edges v->w and w->v
  [d EXCEPT !.newE = @ \cup {e1, e2}, !.tw = (e1 :> e2 @@ e2 :> e1) @@ @,
            !.og = (e1 :> v @@ e2 :> w) @@ @, !.fc = (e1 :> 0 @@ e2 :> 0) @@ @,
            !.ep = (e1 :> t1 @@ e2 :> t2) @@ @]

(* add_vertex *)
DAddV(t, v) == [NoDelta EXCEPT !.newV = {v}, !.vp = v :> t]

(* add_isolated_edge *)
DIso(v, w, e, f, tv, te, tw_, tf) ==
  E2(e, f, v, w, te, tf,
     [NoDelta EXCEPT !.newV = {v, w}, !.vp = v :> tv @@ w :> tw_, !.nx = e :> f @@ f :> e, !.pv = e :> f @@ f :> e])

(* add_vertex_via_edge: a new vertex dangling at the corner between boundary edges i and o *)
PreVia(m, i, o) == i \in Es(m) /\ o \in Es(m) /\ m.fc[i] = 0 /\ m.nx[i] = o
DVia(m, i, o, tv, t1, t2, v, e1, e2) ==
  E2(e1, e2, m.og[o], v, t1, t2,
     [NoDelta EXCEPT !.newV = {v}, !.vp = v :> tv,
                     !.nx = i :> e1 @@ e1 :> e2 @@ e2 :> o, !.pv = e1 :> i @@ e2 :> e1 @@ o :> e2])

(* add_vertex_via_vertex: the same at the only boundary corner of a vertex *)
PreViaV(m, v) == v \in Vs(m) /\ Cardinality(Corners(m, v)) = 1
CornerOf(m, v) == CHOOSE e \in Es(m) : m.og[e] = v /\ m.fc[e] = 0

(* insert_edge_between: each end is isolated or has exactly one boundary corner *)
Docked(m, v) == m.ve[v] # 0
PreBtw(m, v, w) == /\ v \in Vs(m) /\ w \in Vs(m) /\ v # w /\ ~Adj(m, v, w)
                   /\ \A x \in {v, w} : Docked(m, x) => Cardinality(Corners(m, x)) = 1
DBtw(m, v, w, t0, t1, e0, e1) ==
  LET a == Docked(m, v)  b == Docked(m, w)
      ov == IF a THEN CornerOf(m, v) ELSE e0     \* follows e1 at v
      iv == IF a THEN m.pv[ov] ELSE e1           \* precedes e0 at v
      ow == IF b THEN CornerOf(m, w) ELSE e1
      iw == IF b THEN m.pv[ow] ELSE e0
  IN E2(e0, e1, v, w, t0, t1,
        [NoDelta EXCEPT !.nx = e0 :> ow @@ e1 :> ov @@ iv :> e0 @@ iw :> e1,
                        !.pv = e0 :> iv @@ e1 :> iw @@ ow :> e0 @@ ov :> e1])

(* insert_edge: joins the targets of i and o, splitting their common boundary cycle *)
PreIns(m, i, o) == /\ i \in Es(m) /\ o \in Es(m) /\ m.fc[i] = 0 /\ m.fc[o] = 0
                   /\ o \in Range(Cyc(m, i)) /\ Tgt(m, i) # Tgt(m, o) /\ ~Adj(m, Tgt(m, i), Tgt(m, o))
DIns(m, i, o, t1, t2, e1, e2) ==
  LET oi == m.nx[o]  oo == m.nx[i] IN
  E2(e1, e2, Tgt(m, i), Tgt(m, o), t1, t2,
     [NoDelta EXCEPT !.nx = i :> e1 @@ e1 :> oi @@ o :> e2 @@ e2 :> oo,
                     !.pv = e1 :> i @@ oi :> e1 @@ e2 :> o @@ oo :> e2])

(* close_face: insert_edge, then a face on the cycle of i *)
DClose(m, i, o, cu, t1, t2, tf, f, e1, e2) ==
  LET d == DIns(m, i, o, t1, t2, e1, e2) IN
  [d EXCEPT !.newF = {f}, !.fp = f :> tf, !.fcu = f :> cu,
            !.fc = On(Range(Seg(m, m.nx[o], i)) \cup {e1}, f) @@ @]

(* close_face_vertices names the same corner by vertices: prev, from, to *)
InEdges(m, p, v) == {e \in Es(m) : m.og[e] = p /\ Tgt(m, e) = v}
CloseVTo(m, i, to) == {o \in Es(m) : m.fc[o] = 0 /\ Tgt(m, o) = to /\ o \in Range(Cyc(m, i))}
PreCloseV(m, p, v, w) == /\ {p, v, w} \subseteq Vs(m) /\ Cardinality(InEdges(m, p, v)) = 1
                         /\ LET i == CHOOSE e \in InEdges(m, p, v) : TRUE IN
                            /\ m.fc[i] = 0 /\ Cardinality(CloseVTo(m, i, w)) = 1
                            /\ \A o \in CloseVTo(m, i, w) : PreIns(m, i, o)
                            \* the target's other boundary corners do not touch vertex prev's cycle either
                            /\ Cardinality({o \in Es(m) : m.fc[o] = 0 /\ Tgt(m, o) = w
                                              /\ \E x \in Range(Cyc(m, o)) : m.og[x] = p}) = 1

(* close_hole *)
PreHole(m, e) == e \in Es(m) /\ m.fc[e] = 0
DHole(m, e, cu, tf, f) ==
  [NoDelta EXCEPT !.newF = {f}, !.fp = f :> tf, !.fcu = f :> cu, !.fc = On(Range(Cyc(m, e)), f)]

(* remove_face *)
PreRmF(m, f) == f \in Fs(m)
DRmF(m, f) == [NoDelta EXCEPT !.delF = {f}, !.fc = On({e \in Es(m) : m.fc[e] = f}, 0)]

(* insert_vertices_into_edge: u -> x1 -> .. -> xk -> w where e becomes the last piece.
   xs, as, bs: the new vertices, the pieces a_j: x_(j-1) -> x_j and their twins *)
DIve(m, e, t, xs, as, bs) ==
  LET k == Len(xs)  tw == m.tw[e]  p == m.pv[e]  n == m.nx[tw]
      at(j) == IF j = 0 THEN m.og[e] ELSE xs[j] IN
  IF k = 0 THEN NoDelta ELSE
  [NoDelta EXCEPT
     !.newE = Range(as) \cup Range(bs), !.newV = Range(xs),
     !.vp = [x \in Range(xs) |-> t[3 * (CHOOSE j \in 1..k : xs[j] = x)]],
     !.tw = [x \in Range(as) \cup Range(bs) |->
               IF x \in Range(as) THEN bs[CHOOSE j \in 1..k : as[j] = x] ELSE as[CHOOSE j \in 1..k : bs[j] = x]],
     !.ep = [x \in Range(as) \cup Range(bs) |->
               IF x \in Range(as) THEN t[3 * (CHOOSE j \in 1..k : as[j] = x) - 2]
                                  ELSE t[3 * (CHOOSE j \in 1..k : bs[j] = x) - 1]],
     !.og = [x \in Range(as) \cup Range(bs) |->
               IF x \in Range(as) THEN at((CHOOSE j \in 1..k : as[j] = x) - 1) ELSE xs[CHOOSE j \in 1..k : bs[j] = x]]
            @@ (e :> xs[k]),
     !.fc = [x \in Range(as) \cup Range(bs) |-> IF x \in Range(as) THEN m.fc[e] ELSE m.fc[tw]],
     !.nx = [x \in Range(as) |-> LET j == CHOOSE j \in 1..k : as[j] = x IN IF j = k THEN e ELSE as[j + 1]]
            @@ [x \in Range(bs) |-> LET j == CHOOSE j \in 1..k : bs[j] = x IN
                                    IF j > 1 THEN bs[j - 1] ELSE IF n = e THEN as[1] ELSE n]
            @@ (tw :> bs[k]) @@ (IF p = tw THEN None ELSE p :> as[1]),
     !.pv = [x \in Range(as) |-> LET j == CHOOSE j \in 1..k : as[j] = x IN
                                 IF j > 1 THEN as[j - 1] ELSE IF p = tw THEN bs[1] ELSE p]
            @@ [x \in Range(bs) |-> LET j == CHOOSE j \in 1..k : bs[j] = x IN IF j = k THEN tw ELSE bs[j + 1]]
            @@ (e :> as[k]) @@ (IF n = e THEN None ELSE n :> bs[1])]

(* insert_path: fs[i]: x_i -> x_(i+1), bs[i] its twin *)
Idx(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
DPath(t, xs, fs, bs) ==
  LET k == Len(xs)  F == Range(fs)  B == Range(bs) IN
  [NoDelta EXCEPT
     !.newE = F \cup B, !.newV = Range(xs),
     !.vp = [x \in Range(xs) |-> t[Idx(xs, x)]],
     !.tw = [x \in F |-> bs[Idx(fs, x)]] @@ [x \in B |-> fs[Idx(bs, x)]],
     !.ep = On(F \cup B, 0), !.fc = On(F \cup B, 0),
     !.og = [x \in F |-> xs[Idx(fs, x)]] @@ [x \in B |-> xs[(Idx(bs, x) % k) + 1]],
     !.nx = [x \in F |-> LET j == Idx(fs, x) IN
               IF j < Len(fs) THEN fs[j + 1] ELSE IF Len(fs) = k THEN fs[1] ELSE bs[j]]
            @@ [x \in B |-> LET j == Idx(bs, x) IN
               IF j > 1 THEN bs[j - 1] ELSE IF Len(fs) = k THEN bs[k] ELSE fs[1]],
     !.pv = [x \in F |-> LET j == Idx(fs, x) IN
               IF j > 1 THEN fs[j - 1] ELSE IF Len(fs) = k THEN fs[k] ELSE bs[1]]
            @@ [x \in B |-> LET j == Idx(bs, x) IN
               IF j < Len(fs) THEN bs[j + 1] ELSE IF Len(fs) = k THEN bs[1] ELSE fs[j]]]
\* insert_loop: the same with a closing piece fs[k]: x_k -> x_1 (Len(fs) = k)
\* insert_polygon: a face on the cycle of the bs; insert_dihedron: also one on the fs
DPoly(t, xs, fs, bs, f) ==
  [DPath(t, xs, fs, bs) EXCEPT !.newF = {f}, !.fp = f :> 0, !.fcu = f :> 0, !.fc = On(Range(bs), f) @@ On(Range(fs), 0)]
DDihedron(t, xs, fs, bs, f, g) ==
  [DPath(t, xs, fs, bs) EXCEPT !.newF = {f, g}, !.fp = f :> 0 @@ g :> 0, !.fcu = f :> 0 @@ g :> 0,
                               !.fc = On(Range(bs), f) @@ On(Range(fs), g)]

(* subdivide_unsafe: splits half-edge e only; its twin is left covering both halves (not Valid) *)
DSub(m, e, tv, te, v, n) ==
  [NoDelta EXCEPT !.newE = {n}, !.newV = {v}, !.vp = v :> tv, !.ep = n :> te, !.tw = n :> m.tw[e], !.og = n :> v,
                  !.fc = n :> m.fc[e], !.nx = e :> n @@ n :> m.nx[e], !.pv = n :> e @@ m.nx[e] :> n]
(* subdivide_unsafe_try_fixup: splits the twin accordingly *)
Halved(m, e) == m.tw[m.tw[e]] # e   \* the twin of e was subdivided and e was not
OtherHalf(m, e) == CHOOSE x \in Es(m) : m.tw[x] = e /\ x # m.tw[e]
DFix(m, e, te, n) ==
  LET o == m.tw[e]  x == OtherHalf(m, e) IN
  [NoDelta EXCEPT !.newE = {n}, !.ep = n :> te, !.og = n :> m.og[x], !.fc = n :> m.fc[e],
                  !.tw = n :> o @@ e :> x @@ o :> n,
                  !.nx = e :> n @@ n :> m.nx[e], !.pv = n :> e @@ m.nx[e] :> n]
\* all elements except the pair (e, tw e) are in order
Repairable(m, e) == /\ Refs(m) /\ e \in Es(m) /\ Halved(m, e)
                    /\ Cardinality({x \in Es(m) : m.tw[x] = e}) = 2 /\ \E x \in Es(m) : m.tw[x] = e /\ x # m.tw[e]

(* flip_edge / flip: the links are those of the mesh with every edge of S renamed to its twin; payloads stay *)
FlipOf(m, S) ==
  LET s(x) == IF x \in S THEN m.tw[x] ELSE x IN
  [NoDelta EXCEPT !.nx = [x \in Es(m) |-> s(m.nx[s(x)])], !.pv = [x \in Es(m) |-> s(m.pv[s(x)])],
                  !.og = [x \in Es(m) |-> m.og[s(x)]], !.fc = [x \in Es(m) |-> m.fc[s(x)]]]

(* clear *)
DClear(m) == [NoDelta EXCEPT !.delE = Es(m), !.delV = Vs(m), !.delF = Fs(m)]

--------------------------------------------------------------------------
(* Derived observations *)
NumEdges(m) == Cardinality(Es(m)) \div 2
Cycles(m) == {Range(Cyc(m, e)) : e \in Es(m)}
Components(m) == {Comp(m, v) : v \in Vs(m)}
\* every component is a sphere: V - E + (number of edge cycles, 1 for an isolated vertex) = 2
Spherical(m) == \A C \in Components(m) :
   LET E == {e \in Es(m) : m.og[e] \in C} IN
   E = {} \/ Cardinality(C) - Cardinality(E) \div 2 + Cardinality({Range(Cyc(m, e)) : e \in E}) = 2
=============================================================================
