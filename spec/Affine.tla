------------------------------ MODULE Affine -------------------------------
(* Affine maps of integer vectors: x -> m x + t, the matrix m given by rows. The dimension is the length of t. *)
EXTENDS Integers, Sequences, FiniteSets
Dim(A) == Len(A.t)
RECURSIVE DotR(_, _, _)
DotR(a, b, i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + DotR(a, b, i - 1)
DotN(a, b) == DotR(a, b, Len(a))
AddN(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
SubN(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
TimesN(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
Column(m, j) == [i \in 1..Len(m) |-> m[i][j]]
ZeroN(d) == [i \in 1..d |-> 0]
Axis(d, k) == [i \in 1..d |-> IF i = k THEN 1 ELSE 0]
Linear(m, x) == [i \in 1..Len(m) |-> DotN(m[i], x)]
Times(m, n) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> DotN(m[i], Column(n, j))]]
One(d) == [i \in 1..d |-> Axis(d, i)]
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE 0]]
--------------------------------------------------------------------------
Apply(A, x) == AddN(Linear(A.m, x), A.t)
ApplyVec(A, x) == Linear(A.m, x)
Identity(d) == [m |-> One(d), t |-> ZeroN(d)]
FromTranslation(v) == [m |-> One(Len(v)), t |-> v]
FromScale(v) == [m |-> Diag(v), t |-> ZeroN(Len(v))]
FromRotation(r) == [m |-> r, t |-> ZeroN(Len(r))]
\* first A, then B
Chain(A, B) == [m |-> Times(B.m, A.m), t |-> Apply(B, A.t)]
WithTranslation(A, v) == [A EXCEPT !.t = AddN(@, v)]
WithScale(A, v) == [m |-> Times(Diag(v), A.m), t |-> TimesN(v, A.t)]
--------------------------------------------------------------------------
(* What a mesh carries: vertices with places and normals, curves with control points. *)
Moved(A, w) == [w EXCEPT !.X = [i \in 1..Len(@) |-> Apply(A, @[i])], !.N = [i \in 1..Len(@) |-> ApplyVec(A, @[i])],
                         !.C = [i \in 1..Len(@) |-> [k \in 1..Len(@[i]) |-> Apply(A, @[i][k])]]]
=============================================================================
