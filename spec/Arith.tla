------------------------------- MODULE Arith -------------------------------
(* Integer geometry: roots, rounding, points in the plane. *)
EXTENDS Integers, Sequences
RECURSIVE IsqrtR(_, _)
IsqrtR(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE IsqrtR(n, y)
RECURSIVE RootStart(_, _)
RootStart(n, x) == IF x >= 65536 \/ x * x > n THEN x ELSE RootStart(n, 2 * x)
\* the largest x with x * x <= n
Isqrt(n) == IF n <= 0 THEN 0 ELSE IsqrtR(n, LET s == RootStart(n, 1) IN IF s > 46340 THEN 46340 ELSE s)
\* n / d to the nearest integer, for d > 0
RDiv(n, d) == (n + d \div 2) \div d
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sub2(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Dot2(p, q) == p[1] * q[1] + p[2] * q[2]
Cross2(p, q) == p[1] * q[2] - p[2] * q[1]
Norm2(p) == Dot2(p, p)
\* p is within d of the segment from a to b (with less than one unit of error)
NearSegment(p, a, b, d) ==
  LET ab == Sub2(b, a)  ap == Sub2(p, a)  l == Norm2(ab)  t == Dot2(ap, ab) IN
  IF t <= 0 \/ l = 0 THEN Norm2(ap) <= d * d
  ELSE IF t >= l THEN Norm2(Sub2(p, b)) <= d * d
  ELSE Abs(Cross2(ab, ap)) <= d * (Isqrt(l) + 1)
=============================================================================
