------------------------------- MODULE MCPoly -------------------------------
(* Draws every simple polygon on a small grid, corner by corner, and checks that the notions of Geometry fit
   together: all its triangulations tile it, the least weight is the least of theirs, and one of them is Delaunay. *)
EXTENDS Space, Json
CONSTANTS W, H, MaxN, Deep
VARIABLE P
Grid == (0..W) \X (0..H)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Init == \E p \in Grid : P = <<p>>
\* the open path stays simple, and its first corner stays the smallest
Next == /\ Len(P) < MaxN
        /\ \E q \in Grid : /\ Less(P[1], q)
                           /\ \A i \in 1..(Len(P) - 1) : ~OnSeg(q, P[i], P[i + 1]) /\ q # P[i]
                           /\ q # P[Len(P)]
                           /\ \A i \in 1..(Len(P) - 2) : ~Meet(P[Len(P)], q, P[i], P[i + 1])
                           /\ Len(P) > 1 => ~OnSeg(P[Len(P) - 1], P[Len(P)], q)
                           /\ P' = Append(P, q)
Spec == Init /\ [][Next]_P
Origin == P[1][1] = 0 /\ \E i \in 1..Len(P) : P[i][2] = 0
Closed == Simple(P) /\ Origin
\* all triangulations without degenerate triangles of the corners i..j, given that i..j is a diagonal or a side
RECURSIVE All(_, _)
All(i, j) == IF j = i + 1 THEN {<<>>}
  ELSE UNION {{<<<<i, k, j>>>> \o a \o b : a \in All(i, k), b \in All(k, j)} :
              k \in {k \in (i + 1)..(j - 1) : Joined(P, i, k) /\ Joined(P, k, j) /\ Orient(P[i], P[k], P[j]) * Area2(P) > 0}}
\* between collinear corners there may be no proper triangle; otherwise there always is one
Fits == (Deep /\ Closed) =>
  LET A == TLCEval(All(1, Len(P)))  s == ScaleOf(P) IN
  /\ A # {}
  /\ \A T \in A : Tiles(P, T) /\ Proper(P, T) /\ Area2(P) # 0
  /\ LET w == {Weight(P, T, s) : T \in A} IN MinWeight(P, s) \in w /\ \A x \in w : MinWeight(P, s) <= x
  /\ Ccw(P) => \E T \in A : LocallyDelaunay(P, T)
  /\ Convex(P) => Cardinality(A) = (CASE Len(P) = 3 -> 1 [] Len(P) = 4 -> 2 [] Len(P) = 5 -> 5 [] Len(P) = 6 -> 14 [] Len(P) = 7 -> 42 [] OTHER -> 132)
  \* a tiling with one triangle turned over, or one corner exchanged, is none
  /\ \A T \in A : ~Tiles(P, [T EXCEPT ![1] = <<T[1][1], T[1][3], T[1][2]>>])
\* a polygon turns once around: its convex turning points outnumber the reflex ones by two
Level == \E i \in 1..Len(P) : P[i][2] = P[Succ(P, i)][2]
Kinds(k) == Cardinality({i \in 1..Len(P) : Kind(P[Pred(P, i)], P[i], P[Succ(P, i)]) = {k}})
Sweeps == (Closed /\ Ccw(P) /\ ~Level) => Kinds("Start") + Kinds("End") - Kinds("Split") - Kinds("Merge") = 2
\* a tolerance hides turns, and makes up none
Tolerant == Closed => \A i \in 1..Len(P), t \in {1, 3, 5} :
  LET K(x) == KindTol(P[Pred(P, i)], P[i], P[Succ(P, i)], x) IN K(t) \subseteq K(0) \cup {"Undecisive"} \/ K(0) = {"Undecisive"}
\* seen along its normal, a polygon lifted into space is what it was before, up to the choice of axes
Lift(f) == [i \in 1..Len(P) |-> Add3(Mul3(P[i][1], f[1]), Mul3(P[i][2], f[2]))]
Frames == {<<<<1, 0, 0>>, <<0, 1, 0>>>>, <<<<0, 1, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 1>>, <<1, 0, 0>>>>, <<<<0, 0, 1>>, <<0, 1, 0>>>>,
           <<<<2, -1, 2>>, <<2, 2, -1>>>>, <<<<3, 4, 0>>, <<0, 0, -5>>>>}
Lifts == (Deep /\ Closed) => \A f \in Frames :
  LET X == TLCEval(Lift(f))  n == Normal2(X)  S == TLCEval(Shadow(X, n)) IN
  /\ n = Mul3(Area2(P), Cross3(f[1], f[2])) /\ Planar(X)
  /\ Simple(S) /\ Ccw(S) /\ Convex(S) = Convex(P) /\ Flat(S) = Flat(P)
  /\ \A i, j \in 1..Len(P) : Diagonal(S, i, j) = Diagonal(P, i, j)
\* every polygon has a diagonal, unless it is a triangle; the middle of a diagonal is inside, and so is that of a convex one
Splits == (Deep /\ Closed) =>
  /\ (Len(P) > 3) = \E i, j \in 1..Len(P) : Diagonal(P, i, j)
  /\ Convex(P) => \A i, j \in 1..Len(P) : Diagonal(P, i, j) = (i # j /\ j # Succ(P, i) /\ i # Succ(P, j))
  /\ \A i \in 1..Len(P) : OnBoundary(Double(P), Mid2(P[i], P[Succ(P, i)]))
\* a polygon without level sides is monotone if and only if it has no cusps; the pieces of a tiling are simple polygons
\* again, tiled by their triangles, and those of the best tiling are tiled best
Monotone == Kinds("Start") = 1 /\ Kinds("End") = 1
Parted == (Deep /\ Closed /\ Ccw(P)) =>
  /\ ~Level => (Cusps(P) = {}) = Monotone
  /\ Convex(P) => Cusps(P) = {}
  /\ LET A == TLCEval(All(1, Len(P)))  s == ScaleOf(P)  m == MinWeight(P, s) IN \A T \in A :
     LET X == TLCEval(Pieces(T, Cusps(P))) IN
     /\ UNION X = 1..Len(T) /\ \A S, R \in X : S = R \/ S \cap R = {}
     /\ \A S \in X : LET Q == PartShape(P, T, S)  U == PartTiles(T, S) IN Simple(Q) /\ Ccw(Q) /\ Tiles(Q, U)
     /\ Cusps(P) = {} => X = {1..Len(T)} /\ PiecewiseDelaunay(P, T) = LocallyDelaunay(P, T)
     /\ Weight(P, T, s) = m => PiecewiseOptimal(P, T)
     /\ LocallyDelaunay(P, T) => PiecewiseDelaunay(P, T)
Emit == (Closed /\ Ccw(P)) => PrintT(<<"SCRIPT", ToJson(P)>>)
=============================================================================
