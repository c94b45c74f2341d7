-------------------------------- MODULE Path --------------------------------
(* The path builder: a pen that draws edges into a mesh. Its state b besides the mesh:
     sv, cv  the vertex it started at and the vertex it is at (0: nowhere yet)
     se, ce  the half-edges it started with and the ones drawn last, <<>> or a pair
     closed  whether the path came back to where it started (or was closed)
     face    whether it was filled *)
EXTENDS HalfEdge
NoPen == [sv |-> 0, cv |-> 0, se |-> <<>>, ce |-> <<>>, closed |-> FALSE, face |-> FALSE]
At(v) == [NoPen EXCEPT !.sv = v, !.cv = v]
\* starting at the target of half-edge e
AtEdge(m, e) == LET p == <<e, m.pv[e]>> IN [At(Tgt(m, e)) EXCEPT !.se = p, !.ce = p]
--------------------------------------------------------------------------
(* line_to: an edge from the pen to w, with payloads t0 (towards w) and t1. *)
PreLine(m, b, w) == ~b.closed /\ b.cv # 0 /\ (b.ce = <<>> => b.cv = b.sv) /\ PreBtw(m, b.cv, w)
DLine(m, b, w, t0, t1, e0, e1) == DBtw(m, b.cv, w, t0, t1, e0, e1)
Drawn(b, w, e0, e1) == [b EXCEPT !.cv = w, !.ce = <<e0, e1>>, !.se = IF @ = <<>> THEN <<e1, e0>> ELSE @, !.closed = (w = b.sv)]
(* line: the same to a new vertex *)
With(m, w) == LET n == IF w > Len(m.ve) THEN w ELSE Len(m.ve)
                  f(g, x) == [i \in 1..n |-> IF i = w THEN x ELSE IF i <= Len(g) THEN g[i] ELSE Dead] IN
              [m EXCEPT !.ve = f(@, 0), !.vp = f(@, 0)]
DLineNew(m, b, tv, w, t0, t1, e0, e1) == [DLine(With(m, w), b, w, t0, t1, e0, e1) EXCEPT !.newV = {w}, !.vp = w :> tv]
--------------------------------------------------------------------------
(* close: fills the path, after drawing the missing edge back to its start. *)
\* what one finds first when following the half-edge drawn last: its twin (the path is open) or the start
RECURSIVE FirstR(_, _, _, _, _)
FirstR(m, x, y, e, n) == IF e \in {x, y} THEN e ELSE IF n = 0 THEN 0 ELSE FirstR(m, x, y, m.nx[e], n - 1)
EndOf(m, b) == FirstR(m, b.ce[2], b.se[1], b.ce[1], Len(m.nx))
Empty(b) == b.ce = <<>>
IsOpen(m, b) == ~b.closed /\ EndOf(m, b) = b.ce[2]
\* the cycle of half-edge e once the mesh has changed as d says
RECURSIVE AfterR(_, _, _, _, _)
AfterR(m, d, e, x, acc) == LET y == IF x \in DOMAIN d.nx THEN d.nx[x] ELSE m.nx[x] IN
                           IF y = e \/ Cardinality(acc) > Len(m.nx) + 2 THEN acc ELSE AfterR(m, d, e, y, acc \cup {y})
After(m, d, e) == AfterR(m, d, e, e, {e})
PreFill(m, b) ==
  /\ ~b.face /\ b.sv # 0
  /\ IF Empty(b) THEN TRUE
     ELSE /\ m.fc[b.se[1]] = 0
          /\ IF b.closed THEN TRUE
             ELSE LET x == EndOf(m, b) IN
                  /\ x # 0
                  /\ x = b.ce[2] => PreBtw(m, b.cv, b.sv)
DFill(m, b, cu, tf, f, e0, e1) ==
  IF Empty(b) THEN NoDelta
  ELSE IF IsOpen(m, b)
       THEN LET d == DBtw(m, b.cv, b.sv, 0, 0, e0, e1) IN
            [d EXCEPT !.newF = {f}, !.fp = f :> tf, !.fcu = f :> cu,
                      !.fc = On(After(m, d, b.se[1]), f) @@ @]
       ELSE DHole(m, b.se[1], cu, tf, f)
Filled(m, b, e0, e1) == [(IF ~Empty(b) /\ IsOpen(m, b) THEN Drawn(b, b.sv, e0, e1) ELSE b) EXCEPT !.closed = TRUE, !.face = TRUE]
=============================================================================
