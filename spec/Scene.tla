------------------------------- MODULE Scene -------------------------------
(* A mesh with planar faces in space, for export: w.F are the faces as cycles of vertices, w.X the places. *)
EXTENDS Space
Corners(w, f) == [i \in 1..Len(w.F[f]) |-> w.X[w.F[f][i]]]
Members(w, f) == {w.F[f][i] : i \in 1..Len(w.F[f])}
Plane(w, f) == Normal2(Corners(w, f))
Outline(w, f) == Shadow(Corners(w, f), Plane(w, f))
\* every face is a simple planar polygon, and three corners belong to one face only
Regular(w) ==
  /\ \A f \in 1..Len(w.F) : /\ Len(w.F[f]) >= 3 /\ Cardinality(Members(w, f)) = Len(w.F[f])
                            /\ Planar(Corners(w, f)) /\ Simple(Outline(w, f))
  /\ \A f, g \in 1..Len(w.F) : f < g => Cardinality(Members(w, f) \cap Members(w, g)) < 3
RECURSIVE SumFaces(_, _)
SumFaces(w, f) == IF f > Len(w.F) THEN 0 ELSE Len(w.F[f]) + SumFaces(w, f + 1)
AllCorners(w) == SumFaces(w, 1)
AllTriangles(w) == AllCorners(w) - 2 * Len(w.F)
--------------------------------------------------------------------------
(* The triangles T, given by vertices, and which of them belong to face f, given by the places in its cycle *)
Owner(w, t) == {f \in 1..Len(w.F) : {t[1], t[2], t[3]} \subseteq Members(w, f)}
PlaceIn(w, f, v) == CHOOSE i \in 1..Len(w.F[f]) : w.F[f][i] = v
RECURSIVE OfFace(_, _, _, _)
OfFace(w, T, f, i) == IF i > Len(T) THEN <<>> ELSE
  (IF {T[i][1], T[i][2], T[i][3]} \subseteq Members(w, f) THEN <<[k \in 1..3 |-> PlaceIn(w, f, T[i][k])]>> ELSE <<>>) \o OfFace(w, T, f, i + 1)
\* the triangles of every face tile it
Covered(w, T, Ok(_, _)) == \A f \in 1..Len(w.F) : Ok(Outline(w, f), OfFace(w, T, f, 1))
--------------------------------------------------------------------------
(* The sum of the unit normals of the faces around a vertex *)
Around(w, v) == {f \in 1..Len(w.F) : v \in Members(w, f)}
RECURSIVE SumUnits(_, _)
SumUnits(w, S) == IF S = {} THEN Zero3 ELSE LET f == CHOOSE f \in S : TRUE IN Add3(UnitOf(Plane(w, f)), SumUnits(w, S \ {f}))
Smooth(w, v, n) == LET S == Around(w, v)  u == SumUnits(w, S)  q == Isqrt(Dot3(u, u)) IN
  \* opposite normals may cancel
  q < 300 \/ \A c \in 1..3 : Abs(n[c] * q - u[c] * 1000) <= 2 * q + 1000 * (2 * Cardinality(S) + 2)
=============================================================================
