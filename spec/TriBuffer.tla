----------------------------- MODULE TriBuffer -----------------------------
(* A triangle index buffer: a sequence of vertex ids, of which everything after the first s.start is the
   triangulation's own part. Earlier entries belong to someone else and need not come in threes. *)
EXTENDS Geometry
Own(s) == SubSeq(s.buf, s.start + 1, Len(s.buf))
Before(s) == SubSeq(s.buf, 1, s.start)
Count(s) == (Len(s.buf) - s.start) \div 3
Tri(s, i) == <<s.buf[s.start + 3 * i - 2], s.buf[s.start + 3 * i - 1], s.buf[s.start + 3 * i]>>
Tris(s) == [i \in 1..Count(s) |-> Tri(s, i)]
Good(s) == s.start \in 0..Len(s.buf) /\ (Len(s.buf) - s.start) % 3 = 0
Open(b) == [buf |-> b, start |-> Len(b)]
Insert(s, t) == [s EXCEPT !.buf = @ \o t]
\* corners named by their place in the polygon ids
InsertLocal(s, t, ids) == Insert(s, <<ids[t[1]], ids[t[2]], ids[t[3]]>>)
Rename(s, f) == [s EXCEPT !.buf = [i \in 1..Len(@) |-> IF i <= s.start THEN @[i] ELSE f[@[i]]]]
--------------------------------------------------------------------------
(* Flipping the diagonal from a to b of the triangles i, which has it in this direction, and j, which has it in
   the other. The triangles i and j become those at a and at b of the quadrilateral's other diagonal. *)
HasSide(t, a, b) == \E k \in 1..3 : t[k] = a /\ t[(k % 3) + 1] = b
Apex(t, a, b) == CHOOSE x \in {t[k] : k \in 1..3} : x \notin {a, b}
Distinct(t) == Cardinality({t[k] : k \in 1..3}) = 3
Turns(t) == {t, <<t[2], t[3], t[1]>>, <<t[3], t[1], t[2]>>}
Flippable(s, a, b, i, j) == HasSide(Tri(s, i), a, b) /\ HasSide(Tri(s, j), b, a)
PreFlip(s, a, b, i, j) == i \in 1..Count(s) /\ j \in 1..Count(s) /\ i # j /\ a # b /\ Distinct(Tri(s, i)) /\ Distinct(Tri(s, j))
Flipped(s, t, a, b, i, j) ==
  LET c == Apex(Tri(s, i), a, b)  d == Apex(Tri(s, j), a, b) IN
  /\ t.start = s.start /\ Before(t) = Before(s) /\ Len(t.buf) = Len(s.buf)
  /\ \A k \in 1..Count(s) \ {i, j} : Tri(t, k) = Tri(s, k)
  \* which of the two is stored first is not told
  /\ \/ Tri(t, i) \in Turns(<<a, d, c>>) /\ Tri(t, j) \in Turns(<<d, b, c>>)
     \/ Tri(t, j) \in Turns(<<a, d, c>>) /\ Tri(t, i) \in Turns(<<d, b, c>>)
Flip(s, a, b, i, j) ==
  LET c == Apex(Tri(s, i), a, b)  d == Apex(Tri(s, j), a, b)
      p(k, n) == s.start + 3 * k - 3 + n IN
  [s EXCEPT !.buf = [x \in 1..Len(@) |->
     IF x \in p(i, 1)..p(i, 3) THEN <<a, d, c>>[x - p(i, 0)]
     ELSE IF x \in p(j, 1)..p(j, 3) THEN <<d, b, c>>[x - p(j, 0)] ELSE @[x]]]
--------------------------------------------------------------------------
(* Measures of the own part, X giving the place of each vertex. *)
TriArea2(X, t) == Orient(X[t[1]], X[t[2]], X[t[3]])
RECURSIVE SumAbs(_, _, _)
SumAbs(X, T, i) == IF i > Len(T) THEN 0 ELSE Abs(TriArea2(X, T[i])) + SumAbs(X, T, i + 1)
TotalArea2(X, T) == SumAbs(X, T, 1)
RECURSIVE SumSides(_, _, _)
\* in units of 1/100; every term may be one too small
SumSides(X, T, i) == IF i > Len(T) THEN 0 ELSE
  SumSides(X, T, i + 1) + Isqrt(Norm2(Sub2(X[T[i][1]], X[T[i][2]])) * 10000) + Isqrt(Norm2(Sub2(X[T[i][2]], X[T[i][3]])) * 10000) + Isqrt(Norm2(Sub2(X[T[i][3]], X[T[i][1]])) * 10000)
--------------------------------------------------------------------------
(* What the built-in verification of a triangulation T of the polygon with the corners ids at places X accepts *)
Ids(ids) == {ids[i] : i \in 1..Len(ids)}
Used(T) == UNION {{T[i][1], T[i][2], T[i][3]} : i \in 1..Len(T)}
OkIndices(ids, T) == Len(T) = Len(ids) - 2 /\ Used(T) \subseteq Ids(ids)
OkUsed(ids, T) == Used(T) = Ids(ids)
OkTurns(X, T) == \A i \in 1..Len(T) : TriArea2(X, T[i]) >= 0
OkCrossing(X, T) == \A i, j \in 1..Len(T) : i < j => \A k, m \in 1..3 :
  LET a == T[i][k]  b == T[i][(k % 3) + 1]  c == T[j][m]  d == T[j][(m % 3) + 1] IN
  {a, b} \cap {c, d} # {} \/ ~Cross(X[a], X[b], X[c], X[d])
OkArea(X, ids, T) == TotalArea2(X, T) = Abs(Area2([i \in 1..Len(ids) |-> X[ids[i]]]))
OkAll(X, ids, T) == OkIndices(ids, T) /\ OkUsed(ids, T) /\ OkTurns(X, T) /\ OkCrossing(X, T) /\ OkArea(X, ids, T)
=============================================================================
