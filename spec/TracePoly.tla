------------------------------ MODULE TracePoly ------------------------------
(* Triangulations recorded from the library: P the polygon (turning left), ids the ids of its corners,
   pre and buf the index buffer before and after. *)
EXTENDS Geometry, TraceCommon
At(e, id) == IF \E i \in 1..Len(e.ids) : e.ids[i] = id THEN CHOOSE i \in 1..Len(e.ids) : e.ids[i] = id ELSE 0
Triples(e) == LET b == Len(e.pre) IN
  [t \in 1..((Len(e.buf) - b) \div 3) |-> [k \in 1..3 |-> At(e, e.buf[b + 3 * (t - 1) + k])]]
Appends(e) == /\ Len(e.buf) >= Len(e.pre) /\ (Len(e.buf) - Len(e.pre)) % 3 = 0
              /\ SubSeq(e.buf, 1, Len(e.pre)) = e.pre
Judge(e) == Simple(e.P) /\ (e.a[1] = 0 => Ccw(e.P)) /\ (e.op = "Fan" => Convex(e.P))
\* a face seen from behind
Upright(P) == IF Ccw(P) THEN P ELSE [i \in 1..Len(P) |-> <<-P[i][1], P[i][2]>>]
MinW == {"minw", "small", "MinWeight"}
Del == {"Delaunay", "delaunay", "Auto"}
\* a face in a plane whose coordinates are not exact, with three corners on a line
Tilted(e) == e.a[1] = 1 /\ e.a[2] >= 7
SomeFlat(P) == \E i \in 1..Len(P) : \E j \in (i + 1)..Len(P) : \E k \in (j + 1)..Len(P) : Orient(P[i], P[j], P[k]) = 0
(* What the two better sweeps promise for each monotone part. How a face is turned before it is swept is not told,
   but a convex one is monotone any way; a face with four corners takes another way. *)
DynSweep == {"sweepdyn", "SweepDynamic"}
DelSweep == {"sweepdel", "SweepDelaunay"}
\* in single precision, only small coordinates leave no doubt whether a corner is inside a circle
Exact(e) == e.a[1] = 1 \/ e.a[2] # 1 \/ \A i \in 1..Len(e.P), k \in {1, 2} : e.P[i][k] + e.a[4 + k] \in -8..8
Known(e) == IF e.a[1] = 1 THEN Convex(e.P) /\ Len(e.P) > 4 ELSE TRUE
Bad(e) ==
  IF ~Judge(e) THEN {}
  ELSE IF e.st = "panic" /\ e.op = "SweepDynamic" /\ Tilted(e) /\ SomeFlat(e.P) THEN {"C11:SweepDynamic:flat"}
  ELSE IF e.st # "ok" THEN {"C11:" \o e.op \o ":" \o e.st}
  ELSE IF ~Appends(e) THEN {"C11:" \o e.op \o ":buffer"}
  ELSE LET T == TLCEval(Triples(e)) IN
    (IF Tiles(e.P, T) THEN {} ELSE {"C11:" \o e.op \o (IF Tiles(e.P, Reversed(T)) THEN ":winding" ELSE ":tiles")})
    \cup (IF e.op \in MinW \cup (IF Len(e.P) = 4 THEN {"Sweep", "EarClipping", "SweepDynamic", "SweepDelaunay", "Fan", "Delaunay", "Auto"} ELSE {}) /\ Tiles(e.P, T) /\ ~Optimal(e.P, T) THEN {"C12:" \o e.op} ELSE {})
    \cup (IF (e.op \in Del /\ (Len(e.P) > 4 \/ e.op = "delaunay")) /\ Tiles(e.P, T) /\ ~LocallyDelaunay(Upright(e.P), T) THEN {"C13"} ELSE {})
    \cup (IF Tiles(e.P, T) /\ e.op \in DynSweep /\ Known(e) /\ ~PiecewiseOptimal(Upright(e.P), T) THEN {"C28:dynamic"} ELSE {})
    \cup (IF Tiles(e.P, T) /\ e.op \in DelSweep /\ Known(e) /\ Exact(e) /\ ~PiecewiseDelaunay(Upright(e.P), T) THEN {"C28:delaunay"} ELSE {})
Inv == Report(Bad(Ev))
Judged == Judge(Ev) => PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
