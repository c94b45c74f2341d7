------------------------------ MODULE TracePath ------------------------------
(* Recorded drawings against Path. *)
EXTENDS Path, TraceCommon
L(x, s) == IF x THEN {} ELSE {s}
Pick(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE
NewE(m, m1) == Es(m1) \ Es(m)
From(m, m1, v, w) == Pick({e \in NewE(m, m1) : m1.og[e] = v /\ Tgt(m1, e) = w})
NewV(m, m1) == Pick(Vs(m1) \ Vs(m))
\* the state a path may be drawn in: the pen may be anywhere, but it must be on the mesh
OnMesh(m, b) == /\ {b.sv, b.cv} \subseteq Vs(m)
                /\ Range(b.se) \cup Range(b.ce) \subseteq Es(m)
                /\ b.ce # <<>> => Tgt(m, b.ce[1]) = b.cv
                /\ b.se # <<>> => Tgt(m, b.se[1]) = b.sv
Pre(e) == LET m == e.m  b == e.b  a == e.a IN
  /\ Valid(m)
  /\ CASE e.op \in {"start", "svg"} -> TRUE
       [] e.op = "startat" -> a[1] \in Vs(m)
       [] e.op = "startedge" -> a[1] \in Es(m)
       [] e.op = "line" -> OnMesh(m, b) /\ LET w == Len(m.vp) + 1 IN PreLine(With(m, w), b, w)
       [] e.op = "lineto" -> OnMesh(m, b) /\ a[1] \in Vs(m) /\ PreLine(m, b, a[1])
       [] e.op = "fill" -> OnMesh(m, b) /\ PreFill(m, b)
--------------------------------------------------------------------------
(* An imported drawing: every path is a polygon of its own. t[i].vp, t[i].ep: its points and the curves between them. *)
Along(m, m1, xs) == LET k == Len(xs) IN [j \in 1..k |-> From(m, m1, xs[j], xs[(j % k) + 1])]
Against(m, m1, xs) == LET k == Len(xs) IN [j \in 1..k |-> From(m, m1, xs[(j % k) + 1], xs[j])]
Named(m, m1, p) == [j \in 1..Len(p.vp) |-> Pick({v \in Vs(m1) \ Vs(m) : m1.vp[v] = p.vp[j]})]
One(m, m1, p) ==
  LET xs == Named(m, m1, p)  fs == Along(m, m1, xs)  bs == Against(m, m1, xs)
      d == DPoly(p.vp, xs, fs, bs, IF bs[1] = 0 THEN 0 ELSE m1.fc[bs[1]]) IN
  [d EXCEPT !.ep = [x \in Range(fs) |-> p.ep[Idx(fs, x)]] @@ @]
Both(d, x) == [newE |-> d.newE \cup x.newE, newV |-> d.newV \cup x.newV, newF |-> d.newF \cup x.newF, delF |-> {}, delE |-> {}, delV |-> {},
               nx |-> d.nx @@ x.nx, pv |-> d.pv @@ x.pv, tw |-> d.tw @@ x.tw, og |-> d.og @@ x.og, fc |-> d.fc @@ x.fc, ep |-> d.ep @@ x.ep,
               vp |-> d.vp @@ x.vp, fp |-> d.fp @@ x.fp, fcu |-> d.fcu @@ x.fcu]
RECURSIVE DSvg(_, _, _, _)
DSvg(m, m1, t, i) == IF i = 0 THEN NoDelta ELSE Both(DSvg(m, m1, t, i - 1), One(m, m1, t[i]))
RECURSIVE Count(_, _)
Count(t, i) == IF i = 0 THEN 0 ELSE Len(t[i].vp) + Count(t, i - 1)
\* each path its own points, edges and face
Apart(m, m1, t) == LET d == DSvg(m, m1, t, Len(t))  k == Count(t, Len(t)) IN
                   Cardinality(d.newV) = k /\ Cardinality(d.newE) = 2 * k /\ Cardinality(d.newF) = Len(t)
--------------------------------------------------------------------------
Delta(e) == LET m == e.m  b == e.b  a == e.a  t == e.t  m1 == e.m2 IN
  CASE e.op = "start" -> DAddV(t[1], NewV(m, m1))
    [] e.op \in {"startat", "startedge"} -> NoDelta
    [] e.op = "line" -> LET w == NewV(m, m1) IN DLineNew(m, b, t[1], w, t[2], t[3], From(m, m1, b.cv, w), From(m, m1, w, b.cv))
    [] e.op = "lineto" -> DLine(m, b, a[1], t[2], t[3], From(m, m1, b.cv, a[1]), From(m, m1, a[1], b.cv))
    [] e.op = "fill" -> DFill(m, b, 0, 0, e.r, From(m, m1, b.cv, b.sv), From(m, m1, b.sv, b.cv))
    [] e.op = "svg" -> DSvg(m, m1, t, Len(t))
PenOk(e) == LET m == e.m  b == e.b  a == e.a  m1 == e.m2 IN
  CASE e.op = "start" -> e.b2 = At(NewV(m, m1))
    \* any edge to the vertex will do
    [] e.op = "startat" -> IF Docked(m, a[1]) THEN /\ e.b2.se # <<>> /\ e.b2.se[1] \in Es(m) /\ Tgt(m, e.b2.se[1]) = a[1]
                                                   /\ e.b2 = AtEdge(m, e.b2.se[1])
                           ELSE e.b2 = At(a[1])
    [] e.op = "startedge" -> e.b2 = AtEdge(m, a[1])
    [] e.op = "line" -> LET w == NewV(m, m1) IN e.b2 = Drawn(b, w, From(m, m1, b.cv, w), From(m, m1, w, b.cv))
    [] e.op = "lineto" -> e.b2 = Drawn(b, a[1], From(m, m1, b.cv, a[1]), From(m, m1, a[1], b.cv))
    \* a single vertex has no face; nobody promises what has_face says about it
    [] e.op = "fill" -> IF Empty(b) THEN e.r = 0 /\ [e.b2 EXCEPT !.face = TRUE] = Filled(m, b, 0, 0)
                        ELSE e.b2 = Filled(m, b, From(m, m1, b.cv, b.sv), From(m, m1, b.sv, b.cv))
    [] OTHER -> TRUE
Bad(e) ==
  IF ~Pre(e) THEN {}
  ELSE IF e.st # "ok" THEN {"C17:" \o e.op \o ":" \o e.st}
  ELSE IF ~Refs(e.m2) THEN {"C17:" \o e.op \o ":refs"}
  ELSE L(Valid(e.m2), "C17:" \o e.op \o ":valid") \cup L(Conforms(e.m, Delta(e), e.m2), "C17:" \o e.op)
       \cup L(PenOk(e), "C17:pen:" \o e.op) \cup L(e.op = "svg" => Apart(e.m, e.m2, e.t), "C17:svg:paths")
Inv == Report(Bad(Ev))
Judged == ~Pre(Ev) \/ PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
