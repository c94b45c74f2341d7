------------------------------- MODULE Space -------------------------------
(* Exact geometry of integer vectors in space. *)
EXTENDS Geometry
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul3(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Zero3 == <<0, 0, 0>>
RECURSIVE VecArea(_, _, _)
\* twice the area vector of a closed polygon in space
VecArea(X, i, s) == IF i > Len(X) THEN s ELSE VecArea(X, i + 1, Add3(s, Cross3(Sub3(X[i], X[1]), Sub3(X[(i % Len(X)) + 1], X[1]))))
Normal2(X) == VecArea(X, 1, Zero3)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Primitive(n) == LET g == Gcd(Gcd(Abs(n[1]), Abs(n[2])), Abs(n[3])) IN IF g = 0 THEN n ELSE <<n[1] \div g, n[2] \div g, n[3] \div g>>
\* all corners lie in one plane, which n is perpendicular to
InPlane(X, n) == \A i \in 1..Len(X) : Dot3(n, Sub3(X[i], X[1])) = 0
Planar(X) == LET n == Normal2(X) IN n # Zero3 /\ InPlane(X, Primitive(n))
\* the corners seen from the side n points to, as a polygon in the plane
Shadow(X, n) ==
  LET a == <<Abs(n[1]), Abs(n[2]), Abs(n[3])>> IN
  [i \in 1..Len(X) |->
    IF a[3] >= a[1] /\ a[3] >= a[2] THEN (IF n[3] > 0 THEN <<X[i][1], X[i][2]>> ELSE <<X[i][2], X[i][1]>>)
    ELSE IF a[2] >= a[1] THEN (IF n[2] > 0 THEN <<X[i][3], X[i][1]>> ELSE <<X[i][1], X[i][3]>>)
    ELSE (IF n[1] > 0 THEN <<X[i][2], X[i][3]>> ELSE <<X[i][3], X[i][2]>>)]
\* <<k, k times the length of m>>, the latter rounded down
LenOf(m) == LET d == Dot3(m, m)  k == IF d <= 2000 THEN 1000 ELSE IF d <= 200000 THEN 100 ELSE 10 IN <<k, Isqrt(d * k * k)>>
\* v is the unit vector in the direction of n, in units of 1/1000
Unit(v, n) == LET m == Primitive(n)  l == LenOf(m) IN
              \A c \in 1..3 : Abs(v[c] * l[2] - m[c] * 1000 * l[1]) <= 2 * l[2] + 1000
\* the unit vector in that direction in units of 1/1000, every component off by less than two
UnitOf(n) == LET m == Primitive(n)  l == LenOf(m) IN [c \in 1..3 |-> RDiv(m[c] * 1000 * l[1], l[2])]
=============================================================================
