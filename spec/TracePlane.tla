---------------------------- MODULE TracePlane ----------------------------
(* What the library says about points, segments and polygons, compared with exact geometry. *)
EXTENDS Space, TraceCommon
L(b, s) == IF b THEN {} ELSE {s}
Bit(b) == IF b THEN 1 ELSE 0
Close(x, y, d) == Abs(x - y) <= d
--------------------------------------------------------------------------
(* Polygons: area and orientation of any, corners, containment and diagonals of simple ones *)
\* the segment between i and j runs along a straight part of the boundary: neither a valid diagonal nor an invalid one
Along(P, i, j) == LET K == {k \in 1..Len(P) : k \notin {i, j} /\ OnSeg(P[k], P[i], P[j])} IN
  K # {} /\ \A k \in K : Turn(P, k) = 0 /\ Orient(P[Pred(P, k)], P[i], P[j]) = 0
Neighbours(P, i, j) == j = Succ(P, i) \/ i = Succ(P, j)
RECURSIVE SumTo(_, _, _, _)
SumTo(P, c, i, s) == IF i > Len(P) THEN s ELSE SumTo(P, c, i + 1, s + P[i][c])
BadPolygon(e) == LET P == e.P  r == e.r  n == Len(P)  A == Area2(P)  D == Double(P) IN
  L(r.area = A /\ r.abs = Abs(A), "C21:area")
  \cup L(r.ccw = (A >= 0) /\ r.cw = (A <= 0), "C21:orientation")
  \cup L(r.num = n /\ r.same, "C21:points")
  \cup L(\A c \in 1..2 : Close(r.cen[c], 100 * SumTo(P, c, 1, 0), n), "C21:centroid")
  \cup L(\A i \in 1..n : r.conv[i] = (Orient(P[Pred(P, i)], P[i], P[Succ(P, i)]) > 0), "C21:convex")
  \cup (IF ~Simple(P) THEN {} ELSE
        L(\A q \in 1..Len(e.qs) : OnBoundary(D, e.qs[q]) \/ r.con[q] = Inside(D, e.qs[q]), "C21:contains")
        \cup L(\A i, j \in 1..n : LET d == r.diag[i][j] IN
                 IF i = j THEN ~d ELSE IF Neighbours(P, i, j) THEN d
                 ELSE Along(P, i, j) \/ d = Diagonal(P, i, j), "C21:diagonal"))
--------------------------------------------------------------------------
(* Segments *)
Dir(s, k) == Sub2(s[k + 1], s[k])
\* where the lines meet, in units of 1/1000, given that they are not parallel
MeetX(s) == LET r == Dir(s, 1)  t == Dir(s, 3)  x == Cross2(r, t)  m == Cross2(Sub2(s[3], s[1]), t) * Sgn(x) IN
            <<1000 * s[1][1] + RDiv(1000 * m * r[1], Abs(x)), 1000 * s[1][2] + RDiv(1000 * m * r[2], Abs(x))>>
BadSeg(s, r) == LET par == Cross2(Dir(s, 1), Dir(s, 3)) = 0
                    at(p) == p # <<>> /\ Close(p[1], MeetX(s)[1], 4) /\ Close(p[2], MeetX(s)[2], 4)
                    d == Dir(s, 1)  n2 == Norm2(d) IN
  L(IF par THEN r.touch = <<>> /\ r.open = <<>>
    ELSE (IF Meet(s[1], s[2], s[3], s[4]) THEN at(r.touch) ELSE r.touch = <<>>)
         /\ (IF Cross(s[1], s[2], s[3], s[4]) THEN at(r.open) ELSE r.open = <<>>), "C21:intersect")
  \cup L(r.len2 = n2 /\ Close(r.len, 10 * Isqrt(n2 * 10000), 11) /\ r.mid = Mid2(s[1], s[2]) /\ r.ends, "C21:segment")
  \cup L(n2 = 0 \/ LET q == Isqrt(n2 * 10000) IN \A c \in 1..2 : Close(r.dir[c] * q, d[c] * 100000, 2 * q + 1000), "C21:segment")
--------------------------------------------------------------------------
(* Points and triangles *)
\* the angle from u to v has the given sine and cosine
Turned(w, u, v) == LET q == Isqrt(Norm2(u) * Norm2(v)) IN
  IF q = 0 THEN w[1] = 0 /\ w[2] = 1000
  ELSE /\ w[3]
       /\ Close(w[1] * q, 1000 * Cross2(u, v), 2 * q + 1000) /\ Close(w[2] * q, 1000 * Dot2(u, v), 2 * q + 1000)
       /\ Cross2(u, v) # 0 => Sgn(w[1]) \in {0, Sgn(Cross2(u, v))}
BadPoints(s, r) == LET a == s[1]  b == s[2]  c == s[3]  p == s[4] IN
  L(OnSeg(p, a, b) \/ OnSeg(p, b, c) \/ OnSeg(p, c, a) \/ r.in = (Orient(a, b, c) # 0 /\ Sgn(Orient(a, b, p)) = Sgn(Orient(b, c, p)) /\ Sgn(Orient(b, c, p)) = Sgn(Orient(c, a, p)) /\ Orient(a, b, p) # 0), "C21:triangle")
  \cup L(r.bary = Cross2(Sub2(a, p), Sub2(b, p)) /\ r.perp = Cross2(a, b) /\ r.dot = Dot2(a, b), "C21:products")
  \cup L(r.col = (Orient(a, b, p) = 0), "C21:collinear")
  \cup L(r.conv = (Orient(b, a, c) > 0), "C21:convex")
  \cup L(r.d2 = Norm2(Sub2(a, b)) /\ Close(r.d, Isqrt(r.d2 * 100) * 100, 101), "C21:distance")
  \cup L(Turned(r.tri, Sub2(a, p), Sub2(b, p)) /\ Turned(r.btw, a, b), "C21:angle")
--------------------------------------------------------------------------
(* Vectors in space *)
Len3(v) == Isqrt(Dot3(v, v) * 10000)
BadSpace(s, r) == LET a == s[1]  b == s[2]  c == s[3]  q == Len3(a) IN
  L(r.cross = Cross3(a, b) /\ r.dot = Dot3(a, b) /\ r.normal = Cross3(Sub3(a, b), Sub3(c, b)), "C21:products3")
  \cup L(r.len2 = Dot3(a, a) /\ Close(r.len, 10 * q, 11) /\ r.d2 = Dot3(Sub3(a, b), Sub3(a, b)) /\ Close(r.d, 10 * Len3(Sub3(a, b)), 11), "C21:length3")
  \cup L(a = Zero3 \/ Unit(r.unit, a), "C21:normalize3")
  \cup L(r.sum = Add3(a, Add3(b, c)) /\ \A k \in 1..3 : Close(r.mean[k], 1000 * r.sum[k], 2), "C21:mean3")
  \cup L(r.swz = <<a, <<a[1], a[3], a[2]>>, <<a[2], a[1], a[3]>>, <<a[2], a[3], a[1]>>, <<a[3], a[1], a[2]>>, <<a[3], a[2], a[1]>>>>, "C21:swizzle3")
  \cup L(/\ \A k \in 1..3 : Close(r.back[k], 1000 * a[k], 20)
         /\ Close(r.r, 10 * q, 11)
         /\ q = 0 \/ Close(r.theta * q, a[3] * 100000, 2 * q + 1000)
         /\ LET h == Isqrt((a[1] * a[1] + a[2] * a[2]) * 10000) IN
            h = 0 \/ (Close(r.phi[1] * h, a[2] * 100000, 2 * h + 1000) /\ Close(r.phi[2] * h, a[1] * 100000, 2 * h + 1000)), "C21:spherical")
  \cup L(a = Zero3 \/ b = Zero3 \/ (r.rng /\ LET w == Isqrt(Dot3(a, a) * Dot3(b, b)) IN Close(r.cos * w, 1000 * Dot3(a, b), 3 * w + 1000)), "C21:angle3")
--------------------------------------------------------------------------
(* Faces in space *)
RECURSIVE Sum3(_, _)
Sum3(X, i) == IF i = 0 THEN Zero3 ELSE Add3(X[i], Sum3(X, i - 1))
BadFace(e) == LET X == e.X  r == e.r  n == Normal2(X)  m == Primitive(n)  s == Sum3(X, Len(X)) IN
  L(\A c \in 1..3 : Close(r.cen[c], 100 * s[c], 1) /\ Close(r.mcen[c], 100 * s[c], 1), "C21:centroid3")
  \cup L(Len(r.ecen) = Len(X) /\ {r.ecen[i] : i \in 1..Len(r.ecen)} = {[c \in 1..3 |-> <<X[i][c] + X[Succ(X, i)][c], X[i][c], X[Succ(X, i)][c]>>] : i \in 1..Len(X)}, "C21:midpoint3") \cup
  IF n = Zero3 THEN {}   \* no plane to speak of
  ELSE IF ~InPlane(X, m) THEN L(~r.flat, "C21:planar")
  ELSE LET P == TLCEval(Shadow(X, n)) IN
    IF ~r.flat THEN {"C21:planar"} ELSE
    L(r.normal = n, "C21:normal")
    \* of the first corner that is one
    \cup L((r.naive # <<>> /\ Simple(P) /\ Convex(P)) => r.naive = Cross3(Sub3(X[2], X[1]), Sub3(X[3], X[1])), "C21:normal")
    \cup (IF Simple(P) THEN L(r.self = 0 /\ r.simple = 1 /\ ~r.holes, "C21:simple") ELSE {})
    \cup L((\E i, j \in 1..Len(P) : i < j /\ Cross(P[i], P[Succ(P, i)], P[j], P[Succ(P, j)])) => (r.self = 1 /\ r.simple = 0), "C21:simple")
    \cup (IF Simple(P) /\ ~Flat(P) THEN L(r.convex = Convex(P), "C21:convexface") ELSE {})
    \* laid into the plane without stretching or turning over
    \cup L(Len(r.flat2) = Len(X) /\ r.ids
           /\ \A i, j \in 1..Len(X) : i < j => LET d == Sub2(r.flat2[i], r.flat2[j])  h == Sub3(X[i], X[j])  w == Isqrt(Dot3(h, h) * 100) IN
                LET z == <<d[1] \div 10, d[2] \div 10>> IN Close(Isqrt(Norm2(z)), 10 * w, 25)
           /\ r.area > 0, "C21:laidflat")
--------------------------------------------------------------------------
(* Corners as a sweep meets them *)
BadCorners(e) == IF ~Simple(e.P) \/ ~Ccw(e.P) THEN {}
  ELSE {"C24:" \o e.r[i] : i \in {i \in 1..Len(e.P) : e.r[i] \notin KindTol(e.P[Pred(e.P, i)], e.P[i], e.P[Succ(e.P, i)], e.t)}}
       \cup L(Len(e.r) = Len(e.P), "C24")
--------------------------------------------------------------------------
(* Outlines that come as points *)
\* a polygon with n corners, all of them sharp, that goes up and down at every step
BadZigzag(e) ==
  L(Len(e.P) = e.n, "C10:zigzag:corners")
  \cup L(\A i \in 1..Len(e.P) : Close(e.P[i][1], 1000 * RDiv(e.P[i][1], 1000), 2), "C10:zigzag:grid")
  \cup (IF Len(e.P) # e.n THEN {} ELSE LET Q == [i \in 1..e.n |-> <<RDiv(e.P[i][1], 1000), e.P[i][2]>>] IN
        L(Simple(Q) /\ Ccw(Q), "C10:zigzag:simple")
        \cup L(\A i \in 1..e.n : Sgn(Q[i][2] - Q[Pred(Q, i)][2]) * Sgn(Q[i][2] - Q[Succ(Q, i)][2]) = 1, "C10:zigzag:turns")
        \cup L({Q[i][1] : i \in 1..e.n} = 0..(e.n \div 2), "C10:zigzag:width"))
\* lo to hi corners at even angles, at distances within the given range
BadStar(e) == LET P == e.P  n == Len(P) IN
  L(n \in e.lo..e.hi, "C10:star:corners")
  \cup L(\A i \in 1..n : LET d == Isqrt(Norm2(P[i])) IN d >= 1000 * e.r[1] - 5 /\ d <= 1000 * e.r[2] + 5, "C10:star:radius")
  \cup L(\A i \in 1..n : Cross2(P[i], P[Succ(P, i)]) > 0, "C10:star:order")
  \cup L(n = 0 \/ (P[1][2] = 0 /\ P[1][1] > 0), "C10:star:first")
  \* equal steps: the cosine between neighbours is everywhere the same
  \cup L(\A i \in 1..n : LET cs(j) == LET q == Isqrt(Norm2(P[j])) * Isqrt(Norm2(P[Succ(P, j)])) IN Dot2(P[j], P[Succ(P, j)]) \div (q \div 1000) IN Close(cs(i), cs(1), 12), "C10:star:angles")
Each(S, R, B(_, _)) == IF Len(S) # Len(R) THEN {"C21"} ELSE UNION {B(S[i], R[i]) : i \in 1..Len(S)}
Judge(e) == e.op = "corners" => (Simple(e.P) /\ Ccw(e.P))
Bad(e) ==
  IF e.st # "ok" THEN (IF e.op = "corners" THEN {"C24:" \o e.st} ELSE IF e.op \in {"zigzag", "star"} THEN {"C10:" \o e.op \o ":" \o e.st} ELSE {"C21:" \o e.op \o ":" \o e.st})
  ELSE CASE e.op = "polygon" -> BadPolygon(e)
         [] e.op = "segments" -> Each(e.S, e.r, BadSeg)
         [] e.op = "points" -> Each(e.S, e.r, BadPoints)
         [] e.op = "space" -> Each(e.S, e.r, BadSpace)
         [] e.op = "face" -> BadFace(e)
         [] e.op = "zigzag" -> BadZigzag(e)
         [] e.op = "star" -> BadStar(e)
         [] e.op = "corners" -> BadCorners(e)
Inv == Report(Bad(Ev))
Judged == Judge(Ev) => PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
