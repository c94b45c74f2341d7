------------------------------ MODULE MCScene ------------------------------
(* Boxes that lose their faces one by one. *)
EXTENDS Scene, Json
CONSTANTS Sizes
VARIABLES b, gone
Box == <<<<0, 0, 0>>, <<b[1], 0, 0>>, <<b[1], b[2], 0>>, <<0, b[2], 0>>, <<0, 0, b[3]>>, <<b[1], 0, b[3]>>, <<b[1], b[2], b[3]>>, <<0, b[2], b[3]>>>>
Sides6 == <<<<4, 3, 2, 1>>, <<5, 6, 7, 8>>, <<1, 2, 6, 5>>, <<2, 3, 7, 6>>, <<3, 4, 8, 7>>, <<4, 1, 5, 8>>>>
RECURSIVE Keep(_)
Keep(i) == IF i > 6 THEN <<>> ELSE (IF \E k \in 1..Len(gone) : gone[k] = i THEN <<>> ELSE <<Sides6[i]>>) \o Keep(i + 1)
W == [F |-> Keep(1), X |-> Box]
Init == b \in Sizes \X Sizes \X Sizes /\ gone = <<>>
Next == \E i \in 1..6 : (\A k \in 1..Len(gone) : gone[k] < i) /\ gone' = Append(gone, i) /\ b' = b
Spec == Init /\ [][Next]_<<b, gone>>
RECURSIVE Total(_, _)
Total(w, f) == IF f > Len(w.F) THEN Zero3 ELSE Add3(Plane(w, f), Total(w, f + 1))
Sound == LET w == TLCEval(W) IN
  /\ Regular(w) /\ AllTriangles(w) = 2 * (6 - Len(gone))
  \* the faces of a closed solid balance each other, and point outwards
  /\ gone = <<>> => Total(w, 1) = Zero3
  /\ \A f \in 1..Len(w.F) : Dot3(Plane(w, f), Sub3(Mul3(2, Corners(w, f)[1]), b)) > 0
  \* the smooth normals of the corners of a box point along its diagonals, whatever its proportions
  /\ gone = <<>> => \A v \in 1..8 : Smooth(w, v, [c \in 1..3 |-> IF Box[v][c] = 0 THEN -577 ELSE 577])
  /\ gone = <<>> => \A v \in 1..8 : ~Smooth(w, v, [c \in 1..3 |-> IF Box[v][c] = 0 THEN 577 ELSE -577])
  \* the triangles of every face are recognised, and those of a wrong face are not
  /\ LET T == [t \in 1..AllTriangles(w) |-> LET f == ((t + 1) \div 2)  c == w.F[f] IN IF t % 2 = 1 THEN <<c[1], c[2], c[3]>> ELSE <<c[1], c[3], c[4]>>] IN
     /\ Covered(w, T, Tiles)
     /\ w.F # <<>> => ~Covered(w, [T EXCEPT ![1] = <<T[1][2], T[1][1], T[1][3]>>], Tiles)
     /\ w.F # <<>> => ~Covered(w, Tail(T), Tiles)
Emit == PrintT(<<"SCRIPT", ToJson([b |-> b, gone |-> gone])>>)
=============================================================================
