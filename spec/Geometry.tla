------------------------------ MODULE Geometry ------------------------------
(* Exact plane geometry on integer coordinates: polygons and what a triangulation of one is. *)
EXTENDS Arith, FiniteSets, TLC
Orient(a, b, c) == Cross2(Sub2(b, a), Sub2(c, a))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
OnSeg(p, a, b) == Orient(a, b, p) = 0 /\ Dot2(Sub2(a, p), Sub2(b, p)) <= 0
\* the segments cross in one interior point of both
Cross(a, b, c, d) == Sgn(Orient(a, b, c)) * Sgn(Orient(a, b, d)) < 0 /\ Sgn(Orient(c, d, a)) * Sgn(Orient(c, d, b)) < 0
\* the closed segments share a point
Meet(a, b, c, d) == Cross(a, b, c, d) \/ OnSeg(a, c, d) \/ OnSeg(b, c, d) \/ OnSeg(c, a, b) \/ OnSeg(d, a, b)

Succ(P, i) == (i % Len(P)) + 1
Pred(P, i) == IF i = 1 THEN Len(P) ELSE i - 1
RECURSIVE AreaR(_, _, _)
AreaR(P, i, s) == IF i > Len(P) THEN s ELSE AreaR(P, i + 1, s + Cross2(P[i], P[Succ(P, i)]))
\* twice the signed area
Area2(P) == AreaR(P, 1, 0)
\* the boundary is a closed curve without self-contact
Simple(P) ==
  /\ Len(P) >= 3
  /\ \A i \in 1..Len(P) : P[i] # P[Succ(P, i)] /\ ~OnSeg(P[Pred(P, i)], P[i], P[Succ(P, i)]) /\ ~OnSeg(P[Succ(P, i)], P[Pred(P, i)], P[i])
  /\ \A i, j \in 1..Len(P) : (j > i + 1 /\ Succ(P, j) # i) => ~Meet(P[i], P[i + 1], P[j], P[Succ(P, j)])
Ccw(P) == Area2(P) > 0
Turn(P, i) == Sgn(Orient(P[Pred(P, i)], P[i], P[Succ(P, i)])) * Sgn(Area2(P))
Convex(P) == \A i \in 1..Len(P) : Turn(P, i) > 0
NoThreeInLine(P) == \A i, j, k \in 1..Len(P) : i < j /\ j < k => Orient(P[i], P[j], P[k]) # 0
\* a flat corner
Flat(P) == \E i \in 1..Len(P) : Turn(P, i) = 0

\* q strictly inside P: the ray towards +x from q crosses the boundary an odd number of times
CrossesRay(a, b, q) == (a[2] > q[2]) # (b[2] > q[2]) /\ Sgn(Orient(a, b, q)) * Sgn(b[2] - a[2]) > 0
OnBoundary(P, q) == \E i \in 1..Len(P) : OnSeg(q, P[i], P[Succ(P, i)])
Inside(P, q) == ~OnBoundary(P, q) /\ Cardinality({i \in 1..Len(P) : CrossesRay(P[i], P[Succ(P, i)], q)}) % 2 = 1
Double(P) == [i \in 1..Len(P) |-> <<2 * P[i][1], 2 * P[i][2]>>]
Mid2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
\* the open segment from corner i to corner j lies in the open polygon
Diagonal(P, i, j) ==
  /\ i # j /\ j # Succ(P, i) /\ i # Succ(P, j)
  /\ \A k \in 1..Len(P) : k \notin {i, j} => ~OnSeg(P[k], P[i], P[j])
  /\ \A k \in 1..Len(P) : {k, Succ(P, k)} \cap {i, j} = {} => ~Meet(P[i], P[j], P[k], P[Succ(P, k)])
  /\ Inside(Double(P), Mid2(P[i], P[j]))

--------------------------------------------------------------------------
(* Triangulations: sequences of triples of corners *)
Sides(T) == {<<t, k>> : t \in 1..Len(T), k \in 1..3}
From(T, s) == T[s[1]][s[2]]
To(T, s) == T[s[1]][(s[2] % 3) + 1]
Times(T, i, j) == Cardinality({s \in Sides(T) : From(T, s) = i /\ To(T, s) = j})
(* T tiles P. The triangles are oriented like P, and their boundaries add up to the boundary of P: then every
   point is covered as often as P winds around it, once inside and never outside. *)
Tiles(P, T) ==
  /\ Len(T) = Len(P) - 2
  /\ \A t \in 1..Len(T) : /\ \A k \in 1..3 : T[t][k] \in 1..Len(P)
                          /\ Cardinality({T[t][k] : k \in 1..3}) = 3
                          /\ Orient(P[T[t][1]], P[T[t][2]], P[T[t][3]]) * Sgn(Area2(P)) >= 0
  /\ \A i \in 1..Len(P) : Times(T, i, Succ(P, i)) = 1 /\ Times(T, Succ(P, i), i) = 0
  /\ \A s \in Sides(T) : LET i == From(T, s)  j == To(T, s) IN
        j = Succ(P, i) \/ (Times(T, i, j) = 1 /\ Times(T, j, i) = 1)
Reversed(T) == [t \in 1..Len(T) |-> <<T[t][1], T[t][3], T[t][2]>>]
Proper(P, T) == \A t \in 1..Len(T) : Orient(P[T[t][1]], P[T[t][2]], P[T[t][3]]) # 0

\* d strictly inside the circle through a, b, c (which turn left)
InCircle(a, b, c, d) ==
  LET p == Sub2(a, d)  q == Sub2(b, d)  r == Sub2(c, d) IN
  Norm2(p) * Cross2(q, r) + Norm2(q) * Cross2(r, p) + Norm2(r) * Cross2(p, q) > 0
\* every side between two triangles of T (which tiles P and turns left) is locally Delaunay
LocallyDelaunay(P, T) ==
  \A s, u \in Sides(T) : (From(T, s) = To(T, u) /\ To(T, s) = From(T, u)) =>
     LET o == T[u[1]][((u[2] + 1) % 3) + 1]  t == T[s[1]] IN ~InCircle(P[t[1]], P[t[2]], P[t[3]], P[o])

--------------------------------------------------------------------------
(* Minimum weight *)
\* the length of a segment in units of 1/sqrt(scale)
Length(a, b, scale) == Isqrt(Norm2(Sub2(a, b)) * scale)
Inf == 1000000000
Joined(P, i, j) == j = i + 1 \/ (i = 1 /\ j = Len(P)) \/ Diagonal(P, i, j)
RECURSIVE MinR(_, _, _, _)
MinR(f, k, j, best) == IF k >= j THEN best ELSE MinR(f, k + 1, j, Min2(best, f[k]))
RECURSIVE WeightR(_, _, _, _, _)
\* M[i, j]: the least total length of diagonals that triangulate the corners i..j (with the diagonal i..j itself)
WeightR(P, g, M, J, scale) ==
  IF g >= Len(P) THEN M[<<1, Len(P)>>]
  ELSE LET n == Len(P)
           new == [ij \in {<<i, i + g>> : i \in 1..(n - g)} |->
                    IF ~J[ij] THEN Inf
                    ELSE LET i == ij[1]  j == ij[2]
                             f == [k \in (i + 1)..(j - 1) |->
                                    IF Orient(P[i], P[k], P[j]) = 0 THEN Inf
                                    ELSE Min2(Inf, M[<<i, k>>] + M[<<k, j>>])]
                             best == MinR(f, i + 1, j, Inf) IN
                         IF best = Inf THEN Inf ELSE best + (IF g = n - 1 THEN 0 ELSE Length(P[i], P[j], scale))]
       IN WeightR(P, g + 1, TLCEval(new @@ M), J, scale)
MinWeight(P, scale) ==
  LET n == Len(P)
      J == TLCEval([ij \in {<<a, b>> \in (1..n) \X (1..n) : a < b} |-> Joined(P, ij[1], ij[2])])
  IN WeightR(P, 2, TLCEval([ij \in {<<i, i + 1>> : i \in 1..(n - 1)} |-> 0]), J, scale)
\* the total length of the diagonals in T
RECURSIVE SumLen(_, _, _, _)
SumLen(P, T, S, scale) == IF S = {} THEN 0 ELSE
  LET s == CHOOSE s \in S : TRUE IN Length(P[From(T, s)], P[To(T, s)], scale) + SumLen(P, T, S \ {s}, scale)
Inner(P, T) == {s \in Sides(T) : From(T, s) < To(T, s) /\ Times(T, To(T, s), From(T, s)) > 0}
Weight(P, T, scale) == SumLen(P, T, Inner(P, T), scale)
\* scale such that no squared length times scale overflows
Spread(P) == LET X == {P[i][1] : i \in 1..Len(P)}  Y == {P[i][2] : i \in 1..Len(P)}
                 w(S) == (CHOOSE a \in S : \A b \in S : b <= a) - (CHOOSE a \in S : \A b \in S : b >= a)
             IN w(X) * w(X) + w(Y) * w(Y)
ScaleOf(P) == 2000000000 \div Spread(P)
Optimal(P, T) == LET s == ScaleOf(P) IN Weight(P, T, s) <= MinWeight(P, s) + Len(P)
--------------------------------------------------------------------------
(* Monotone parts, for polygons that turn left. A line sweeping from the top cuts a polygon only at corners that are
   reflex (or straight) and not passed from above to below; what is left between the cuts is monotone. *)
Cusp(P, i) == LET a == P[Pred(P, i)]  b == P[i]  c == P[Succ(P, i)] IN
  Orient(a, b, c) <= 0 /\ ~(a[2] < b[2] /\ b[2] < c[2]) /\ ~(c[2] < b[2] /\ b[2] < a[2])
Cusps(P) == {i \in 1..Len(P) : Cusp(P, i)}
\* the neighbour of the triangle t of T across its side k, or 0
Beyond(T, t, k) == LET i == From(T, <<t, k>>)  j == To(T, <<t, k>>)
                       S == {u \in 1..Len(T) : \E m \in 1..3 : From(T, <<u, m>>) = j /\ To(T, <<u, m>>) = i}
                   IN IF S = {} THEN 0 ELSE CHOOSE u \in S : TRUE
\* all triangles reached from S without crossing a side with an end in C
RECURSIVE Spill(_, _, _)
Spill(T, C, S) ==
  LET N == (S \cup {Beyond(T, x[1], x[2]) : x \in {x \in S \X (1..3) : From(T, x) \notin C /\ To(T, x) \notin C}}) \ {0}
  IN IF N = S THEN S ELSE Spill(T, C, N)
Pieces(T, C) == {Spill(T, C, {t}) : t \in 1..Len(T)}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})
\* the polygon covered by a piece S, and its triangles
PartShape(P, T, S) == LET I == Ascending({T[t][k] : t \in S, k \in 1..3}) IN [i \in 1..Len(I) |-> P[I[i]]]
PartTiles(T, S) == LET I == Ascending({T[t][k] : t \in S, k \in 1..3})  O == Ascending(S) IN
  [t \in 1..Len(O) |-> [k \in 1..3 |-> CHOOSE i \in 1..Len(I) : I[i] = T[O[t]][k]]]
\* every piece is triangulated with the least weight
PiecewiseOptimal(P, T) == \A S \in Pieces(T, TLCEval(Cusps(P))) :
  LET Q == TLCEval(PartShape(P, T, S)) IN Len(Q) = 3 \/ Optimal(Q, TLCEval(PartTiles(T, S)))
\* so is every side not at a cusp locally Delaunay, between triangles that are none of them flat
PiecewiseDelaunay(P, T) ==
  LET C == TLCEval(Cusps(P)) IN
  \A s, u \in Sides(T) : (From(T, s) = To(T, u) /\ To(T, s) = From(T, u) /\ {From(T, s), To(T, s)} \cap C = {}) =>
     LET o == T[u[1]][((u[2] + 1) % 3) + 1]  t == T[s[1]]  w == T[u[1]] IN
     \/ ~InCircle(P[t[1]], P[t[2]], P[t[3]], P[o])
     \/ Orient(P[t[1]], P[t[2]], P[t[3]]) = 0 \/ Orient(P[w[1]], P[w[2]], P[w[3]]) = 0
--------------------------------------------------------------------------
(* The kind of a corner met by a line sweeping from the top, for polygons that turn left; what differs by t/2 or
   less counts as the same, where t is odd or 0 *)
KindTol(a, b, c, t) ==
  LET up(p) == 2 * (b[2] - p[2]) > t  down(p) == 2 * (p[2] - b[2]) > t  o == 2 * Orient(a, b, c)
      turn(convex, reflex) == IF o > t THEN {convex} ELSE IF o < -t THEN {reflex} ELSE {"Undecisive"} IN
  IF (~up(a) /\ ~down(a)) \/ (~up(c) /\ ~down(c)) THEN {"Undecisive"}
  ELSE IF up(a) /\ up(c) THEN turn("Start", "Split")
  ELSE IF down(a) /\ down(c) THEN turn("End", "Merge")
  ELSE IF o <= 2 * t /\ o >= -2 * t THEN {"Regular", "Undecisive"} ELSE {"Regular"}
Kind(a, b, c) == KindTol(a, b, c, 0)
=============================================================================
