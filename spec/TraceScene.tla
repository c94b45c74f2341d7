---------------------------- MODULE TraceScene ----------------------------
EXTENDS Scene, TraceCommon
L(b, s) == IF b THEN {} ELSE {s}
Accept(alg, P, T) == Tiles(P, T) \/ (alg = "EarClipping" /\ Len(P) > 4 /\ Tiles(P, Reversed(T)))
\* what the algorithms promise, see C11: fans are for convex faces; the dynamic sweep is known to fail where three corners are in line
Within(alg, w) == \A f \in 1..Len(w.F) : Len(w.F[f]) > 4 =>
  /\ alg = "Fan" => Convex(Outline(w, f))
  /\ alg = "SweepDynamic" => NoThreeInLine(Outline(w, f))
Judge(e) == /\ \A i \in 1..Len(e.w.V) : e.w.V[i] = i
            /\ Regular(e.w)
            /\ e.op # "smooth" => Within(e.alg, e.w)
InRange(e) == \A i \in 1..Len(e.idx) : e.idx[i] \in 1..Len(e.out)
Refs(e) == [t \in 1..(Len(e.idx) \div 3) |-> <<e.idx[3 * t - 2], e.idx[3 * t - 1], e.idx[3 * t]>>]
ByVertex(e) == [t \in 1..(Len(e.idx) \div 3) |-> <<e.out[e.idx[3 * t - 2]].id, e.out[e.idx[3 * t - 1]].id, e.out[e.idx[3 * t]].id>>]
Faithful(e) == \A j \in 1..Len(e.out) : e.out[j].id \in 1..Len(e.w.X) /\ e.out[j].t = 7 /\ e.out[j].x = e.w.X[e.out[j].id]
BadTriangles(e) ==
  IF ~InRange(e) THEN {"C14:range"} ELSE IF ~Faithful(e) THEN {"C14:places"} ELSE
  LET T == TLCEval(ByVertex(e)) IN
  L(Len(e.idx) = 3 * AllTriangles(e.w), "C14:count")
  \cup L(\A t \in 1..Len(T) : Owner(e.w, T[t]) # {}, "C14:stray")
  \cup L(Covered(e.w, T, LAMBDA P, S : Accept(e.alg, P, S)), "C14:cover")
BadDense(e) == BadTriangles(e)
  \cup L(Len(e.out) = Len(e.w.X) /\ {e.out[j].id : j \in 1..Len(e.out)} = 1..Len(e.w.X), "C14:list")
\* the exported vertices the triangles of face f use
Copies(e, T, R, f) == UNION {IF {T[t][k] : k \in 1..3} \subseteq Members(e.w, f) THEN {R[t][k] : k \in 1..3} ELSE {} : t \in 1..Len(T)}
BadFlat(e) ==
  LET b == BadTriangles(e) IN IF b # {} THEN b ELSE
  LET T == TLCEval(ByVertex(e))  R == TLCEval(Refs(e)) IN
  L(Len(e.out) = AllCorners(e.w), "C14:copies")
  \cup UNION {LET C == TLCEval(Copies(e, T, R, f)) IN
       L(Cardinality(C) = Len(e.w.F[f]) /\ {e.out[j].id : j \in C} = Members(e.w, f), "C14:copies")
       \cup LET n == TLCEval(Plane(e.w, f)) IN L(\A j \in C : Unit(e.out[j].n, n), "C14:normal")
     : f \in 1..Len(e.w.F)}
BadSmooth(e) ==
  L(Len(e.out) = Len(e.w.X) /\ (\A j \in 1..Len(e.out) : e.out[j].id = j) /\ Faithful(e) /\ e.same, "C22:changed")
  \cup L(\A j \in 1..Len(e.out) : Around(e.w, j) = {} \/ Smooth(e.w, j, e.out[j].n), "C22:normal")
  \cup L(e.again, "C22:again")
Bad(e) == IF ~Judge(e) THEN {}
  ELSE IF e.st # "ok" THEN {IF e.op = "smooth" THEN "C22:" \o e.st ELSE "C14:" \o e.op \o ":" \o e.st}
  ELSE CASE e.op = "dense" -> BadDense(e) \cup L(e.same, "C14:changed")
         [] e.op = "flat" -> BadFlat(e) \cup L(e.same, "C14:changed")
         [] e.op = "smooth" -> BadSmooth(e)
Inv == Report(Bad(Ev))
Judged == Judge(Ev) => PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
