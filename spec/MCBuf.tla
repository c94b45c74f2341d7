------------------------------- MODULE MCBuf -------------------------------
(* All histories of a small buffer over the corners of one quadrilateral. *)
EXTENDS TriBuffer, Json
CONSTANTS Tris3, Most
VARIABLES s, o
X == <<<<0, 0>>, <<4, 1>>, <<3, 3>>, <<1, 4>>>>
Names == <<3, 1, 4, 2>>
Places == [i \in 1..4 |-> X[CHOOSE k \in 1..4 : Names[k] = i]]
Triples == {t \in (1..4) \X (1..4) \X (1..4) : Distinct(t)}
Some == {t \in Triples : t[1] < t[2] \/ Tris3}
Ring == [i \in 1..4 |-> (i % 4) + 1]
Init == s \in {Open(<<>>), Open(<<2>>)} /\ o = <<"open">>
Do(t, x) == s' = t /\ o' = x
Next == \/ Len(s.buf) <= 3 /\ s.start = 0 /\ (IF s.buf = <<>> THEN TRUE ELSE s.buf[1] = 1) /\ Do(Open(s.buf), <<"open">>)
        \/ Count(s) < Most /\ \E t \in Some : Do(Insert(s, t), <<"tri", t>>)
        \/ Count(s) < Most /\ \E t \in {<<1, 2, 3>>, <<3, 4, 1>>, <<4, 2, 1>>} : Do(InsertLocal(s, t, Names), <<"local", t>>)
        \/ Count(s) < 2 /\ Do(Rename(s, Ring), <<"map">>)
        \/ \E i, j \in 1..Count(s), a, b \in 1..4 : PreFlip(s, a, b, i, j) /\ Flippable(s, a, b, i, j) /\ Do(Flip(s, a, b, i, j), <<"flip", a, b, i, j>>)
        \/ \E i, j \in 1..Count(s), a, b \in 1..4 : PreFlip(s, a, b, i, j) /\ ~Flippable(s, a, b, i, j) /\ (HasSide(Tri(s, i), a, b) \/ HasSide(Tri(s, j), b, a)) /\ Do(s, <<"flip", a, b, i, j>>)
Spec == Init /\ [][Next]_<<s, o>>
View == s
TypeOK == Good(s)
\* nothing but a new triangulation ends the earlier part, and nothing changes it
Keeps == [][o'[1] = "open" \/ (s'.start = s.start /\ Before(s') = Before(s))]_<<s, o>>
\* the signed boundary of a set of triangles
Net(T, a, b) == Cardinality({x \in Sides(T) : From(T, x) = a /\ To(T, x) = b}) - Cardinality({x \in Sides(T) : From(T, x) = b /\ To(T, x) = a})
Flips == [][o'[1] = "flip" =>
  LET a == o'[2]  b == o'[3]  i == o'[4]  j == o'[5] IN
  IF ~Flippable(s, a, b, i, j) THEN s' = s
  ELSE /\ Flipped(s, s', a, b, i, j)
       \* the outline stays
       /\ \A x, y \in 1..4 : Net(Tris(s), x, y) = Net(Tris(s'), x, y)
       \* and flipping the other diagonal gives the same triangles again
       /\ LET c == Apex(Tri(s, i), a, b)  d == Apex(Tri(s, j), a, b) IN
          c # d => /\ Flippable(s', d, c, i, j)
                   /\ LET u == Flip(s', d, c, i, j) IN {Turns(Tri(u, i)), Turns(Tri(u, j))} = {Turns(Tri(s, i)), Turns(Tri(s, j))}]_<<s, o>>
\* for the corners of a convex quadrilateral, verification accepts just the two triangulations
Verified == Count(s) = 2 => OkAll(Places, Names, Tris(s)) =
  (Tiles(X, [i \in 1..2 |-> [k \in 1..3 |-> CHOOSE m \in 1..4 : Names[m] = Tri(s, i)[k]]]))
Emit == PrintT(<<"SCRIPT", ToJson([b |-> s.buf, s |-> s.start, o |-> o'])>>)
=============================================================================
