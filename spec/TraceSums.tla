----------------------------- MODULE TraceSums -----------------------------
(* Sums, means and the elementary functions of numbers and vectors, as recorded from the library. *)
EXTENDS Sums, TraceCommon
L(b, s) == IF b THEN {} ELSE {s}
Close(x, y, d) == Abs(x - y) <= d
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Bit(b) == IF b THEN 1 ELSE 0
\* mean m in units of 1/1000 at each level: the large part decides, unless there is none
Mean(S, m, d) == LET x == Exact(S)  n == Len(S) IN
  IF x[2] = 0 THEN Close(m[1] * n, 1000 * x[1], n + d) ELSE Close(m[2] * n, 1000 * x[2], n)
\* the vectors summed have the components (x, -x, 3x at level 0 only)
Neg(S) == [i \in 1..Len(S) |-> <<-S[i][1], S[i][2]>>]
Flat(S) == [i \in 1..Len(S) |-> <<3 * S[i][1], 0>>]
BadSum(e) == LET S == e.S  r == e.r IN
  L(Compensated(S, r.sum) /\ r.sum = r.ext /\ r.n = Len(S), "C25:sum")
  \cup L(Mean(S, r.mean, 0), "C25:mean")
  \cup L(Stable(S, r.vsum[1]) /\ Stable(Neg(S), r.vsum[2]) /\ Compensated(Flat(S), r.vsum[3]) /\ r.vn = Len(S), "C25:vectorsum")
  \cup L(/\ (Mass(S, 1, 0) = 0 \/ Exact(S)[2] # 0) => (Mean(S, r.vmean[1], 0) /\ Mean(Neg(S), r.vmean[2], 0))
         /\ Mean(Flat(S), r.vmean[3], 0), "C25:vectormean")
--------------------------------------------------------------------------
(* Numbers: a, b, c are integers; k / 8 a parameter *)
BadNumber(s, r) == LET a == s[1]  b == s[2]  c == s[3]  k == s[4] IN
  L(r.lerp = 8 * a + k * (b - a), "C25:lerp")
  \cup L(b > c \/ r.clamp = (IF a < b THEN b ELSE IF a > c THEN c ELSE a), "C25:clamp")
  \cup L(r.abs = Abs(a) /\ r.max = Max2(a, b) /\ r.min = Min2(a, b) /\ r.pos = (a > 0) /\ r.neg = (a < 0), "C25:sign")
  \cup L(r.cmp = Sgn(a - b), "C25:order")
  \cup L(r.about = <<Abs(a - b) < 1, Abs(a - b) < 2, Abs(8 * (a - b)) < 9>>, "C25:about")
  \cup L(a < 0 \/ (r.usize = a /\ Close(r.sqrt, Isqrt(a * 10000) * 10, 11)), "C25:conversion")
  \* sine and cosine of a / 8, and what belongs to them
  \cup L(LET x == r.trig IN
         /\ Close(x.s * x.s + x.c * x.c, 100000000, 30000)
         /\ Close(x.t * x.c, x.s * 1000, 20 * Abs(x.t) + 20000) /\ (x.s # 0 => Close(x.ct * x.s, x.c * 1000, 20 * Abs(x.ct) + 20000))
         /\ Close(x.at, x.red, 20) /\ Close(x.ac, Abs(x.red), 200), "C25:trigonometry")
\* determinant of three rows
BadDet(s, r) == L(r = s[1] * (s[5] * s[9] - s[6] * s[8]) - s[2] * (s[4] * s[9] - s[6] * s[7]) + s[3] * (s[4] * s[8] - s[5] * s[7]), "C25:determinant")
\* vectors of n components made of a few of them, and back
BadMake(s, r) == LET n == s[1]  a == s[2]  b == s[3]  c == s[4]
                     P(i, x) == IF i <= n THEN x ELSE 0 IN
  L(/\ r.x = <<a, 0, 0, 0>> /\ r.xy = <<a, P(2, b), 0, 0>> /\ r.xyz = <<a, P(2, b), P(3, c), 0>>
    /\ r.splat = [i \in 1..4 |-> P(i, a)] /\ r.zero = <<0, 0, 0, 0>> /\ r.v2 = <<a, P(2, b)>>, "C25:components")
\* ids: s is the number and the number of bits
BadIndex(s, r) == LET fits == s[2] >= 31 \/ s[1] < 2 ^ s[2] IN
  L(r.ok = fits /\ (fits => r.back = s[1]) /\ r.max, "C25:index")
--------------------------------------------------------------------------
(* Vectors a and b of two, three and four components *)
RECURSIVE DotR(_, _, _)
DotR(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + DotR(a, b, n - 1)
IsRoot(r, x) == Close(r, Isqrt(x * 10000) * 10, 11)
BadCommon(a, b, n, c) ==
  LET dif == [i \in 1..4 |-> a[i] - b[i]]  l2 == DotR(a, a, n)  m2 == DotR(b, b, n)  d2 == DotR(dif, dif, n)  dt == DotR(a, b, n)
      far == {Abs(dif[i]) : i \in 1..n} IN
  L(c.dot = dt /\ c.d2 = d2 /\ c.l2 = l2 /\ IsRoot(c.d, d2) /\ IsRoot(c.l, l2), "C25:products")
  \cup L(l2 = 0 \/ \A i \in 1..n : Close(c.u[i] * c.l, 1000 * a[i] * 1000, 20000), "C25:normalize")
  \cup L(c.zero = <<l2 = 0, TRUE, d2 = 0>> /\ c.about = <<\A x \in far : x <= 1, \A x \in far : x <= 4, TRUE>>, "C25:vectorabout")
  \cup L(c.in /\ IF l2 = 0 \/ m2 = 0 THEN c.t = <<1000, 0>>
                  ELSE /\ Close(c.t[1] * Isqrt(l2 * m2 * 100), 10000 * dt, 10000 + 10 * Isqrt(l2 * m2 * 100))
                       /\ IF n = 2 THEN Close(c.t[2] * Isqrt(l2 * m2 * 100), 10000 * (a[1] * b[2] - a[2] * b[1]), 10000 + 10 * Isqrt(l2 * m2 * 100)) ELSE c.t[2] >= 0, "C25:angle")
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
BadVector(s, r) ==
  LET a == SubSeq(s, 1, 4)  b == SubSeq(s, 5, 8)  x == a[1]  y == a[2]  z == a[3]  w == a[4]
      A3 == SubSeq(a, 1, 3)  B3 == SubSeq(b, 1, 3)  sp == r.three.sp  q == Isqrt((x * x + y * y) * 10000) * 10 IN
  BadCommon(a, b, 2, r.two.c) \cup BadCommon(a, b, 3, r.three.c) \cup BadCommon(a, b, 4, r.four.c)
  \cup L(r.two.perp = x * b[2] - y * b[1] /\ r.three.cross = Cross(A3, B3) /\ r.three.normal = Cross(Minus(A3, B3), Minus(<<1, 2, 3>>, B3)), "C25:cross")
  \cup L(/\ r.two.xy = <<x, y>> /\ r.two.yx = <<y, x>> /\ r.two.new = <<x, y>>
         /\ r.three.sw = << A3, <<x, z, y>>, <<y, x, z>>, <<y, z, x>>, <<z, x, y>>, <<z, y, x>>, A3, A3, A3 >>
         /\ r.four.sw = << a, a, a, a >>, "C25:rearranged")
  \cup L(/\ r.three.back = A3 /\ r.three.ins /\ IsRoot(sp[1], x * x + y * y + z * z)
         /\ (x = 0 /\ y = 0) \/ (Close(sp[2] * q, 1000000 * x, 20000) /\ Close(sp[3] * q, 1000000 * y, 20000))
         /\ (x = 0 /\ y = 0 /\ z = 0) \/ Close(sp[4] * sp[1], 1000000 * z, 20000), "C25:spherical")
--------------------------------------------------------------------------
(* Interpolation on the unit sphere: a and b are unit vectors in units of 1/q; at[k] is the value at k/8, in units of 1/1000 *)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Same(a, b, d) == \A i \in 1..3 : Close(a[i], b[i], d)
Scaled(a, q) == [i \in 1..3 |-> RDiv(1000 * a[i], q)]
\* m is on the unit sphere half-way between u and v (all in units of 1/1000)
Halfway(u, v, m) == LET w == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>  len == Isqrt(Dot(w, w)) IN
  len < 200 \/ \A i \in 1..3 : Close(m[i] * len, 1000 * w[i], 5 * len + 3000)
BadSlerp(e) == LET u == Scaled(e.a, e.q)  v == Scaled(e.b, e.q)  at == e.r IN
  IF Dot(e.a, e.b) * 100 < -98 * e.q * e.q THEN {}   \* opposite points: no way to go is the shortest
  ELSE L(Same(at[1], u, 2) /\ Same(at[9], v, 2) /\ \A k \in 0..3 : Halfway(at[2 * k + 1], at[2 * k + 3], at[2 * k + 2]) /\ \A h \in {0, 1} : Halfway(at[4 * h + 1], at[4 * h + 5], at[4 * h + 3])
         /\ Halfway(u, v, at[5]), "C25:slerp")
--------------------------------------------------------------------------
Each(S, R, Bd(_, _)) == IF Len(S) # Len(R) THEN {"C25"} ELSE UNION {Bd(S[i], R[i]) : i \in 1..Len(S)}
Phi == 161803
BadConst(r) == L(/\ r.small = <<0, 10, 20, 30, 40, 50, 100, 5>> /\ Close(r.pi, 314159, 1) /\ Close(r.phi, Phi, 1)
                 /\ r.inf = <<TRUE, TRUE, TRUE, TRUE, FALSE, TRUE>> /\ r.eps, "C25:constants")
Bad(e) ==
  IF e.st # "ok" THEN {"C25:" \o e.op \o ":" \o e.st}
  ELSE CASE e.op = "sum" -> BadSum(e)
         [] e.op = "number" -> Each(e.S, e.r, BadNumber)
         [] e.op = "det" -> Each(e.S, e.r, BadDet)
         [] e.op = "make" -> Each(e.S, e.r, BadMake)
         [] e.op = "vector" -> Each(e.S, e.r, BadVector)
         [] e.op = "index" -> Each(e.S, e.r, BadIndex)
         [] e.op = "slerp" -> BadSlerp(e)
         [] e.op = "const" -> BadConst(e.r)
Inv == Report(Bad(Ev))
Judged == PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
