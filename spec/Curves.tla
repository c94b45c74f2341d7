------------------------------- MODULE Curves -------------------------------
(* Bezier curves on edges, and what flattening them means: every curved edge is replaced by a chain of straight
   edges along the curve, everything else stays. Coordinates are integers (1/64 of a unit). *)
EXTENDS HalfEdge, Arith, TLC

\* the point of the curve with end points p, q and control points c at j / N, by repeated interpolation (in eighths
\* of a unit as long as the integers allow it)
Lerp1(x, y, j, N) == x + RDiv((y - x) * j, N)
RECURSIVE Casteljau(_, _, _)
Casteljau(xs, j, N) == IF Len(xs) = 1 THEN xs[1] ELSE Casteljau([i \in 1..(Len(xs) - 1) |-> Lerp1(xs[i], xs[i + 1], j, N)], j, N)
At(p, c, q, j, N) ==
  LET K == IF N > 64 THEN 1 ELSE 8  all == <<p>> \o c \o <<q>>
      f(a) == RDiv(Casteljau([i \in 1..Len(all) |-> K * all[i][a]], j, N), K)
  IN <<f(1), f(2)>>
Sampled(p, c, q, N) == TLCEval([j \in 1..(N + 1) |-> At(p, c, q, j - 1, N)])
Close2(p, q, d) == Abs(p[1] - q[1]) <= d /\ Abs(p[2] - q[2]) <= d

\* the points pts (from p to q, all included) lie on the curve B in order and the curve stays within tol of the
\* segments between them: R is the set of samples up to which the first i points can be accounted for
Slack == 10
\* the same as NearSegment for large coordinates: long segments are judged in coarser units
NearFar(p, a, b, d) ==
  LET ab == Sub2(b, a)  ap == Sub2(p, a)
      m == Max2(Max2(Abs(ab[1]), Abs(ab[2])), Max2(Abs(ap[1]), Abs(ap[2])))  s == m \div 16384 + 1
      C(q) == <<RDiv(q[1], s), RDiv(q[2], s)>>
      box(i) == Min2(0, ab[i]) - d <= ap[i] /\ ap[i] <= Max2(0, ab[i]) + d
  IN box(1) /\ box(2) /\ NearSegment(C(ap), <<0, 0>>, C(ab), IF s = 1 THEN d ELSE d \div s + 2)
\* the samples that can be accounted for up to j: those in R, and what follows one of them near the segment a b
RECURSIVE AheadR(_, _, _, _, _, _, _, _)
AheadR(B, a, b, tol, R, top, j, S) ==
  IF j > Len(B) \/ (j > top /\ j - 1 \notin S) THEN S
  ELSE AheadR(B, a, b, tol, R, top, j + 1,
              IF j \in R \/ (j - 1 \in S /\ NearFar(B[j], a, b, tol + 2)) THEN S \cup {j} ELSE S)
Ahead(B, a, b, tol, R) ==
  AheadR(B, a, b, tol, R, CHOOSE x \in R : \A y \in R : x >= y, CHOOSE x \in R : \A y \in R : x <= y, {})
RECURSIVE FollowR(_, _, _, _, _)
FollowR(B, pts, tol, i, R) ==
  IF R = {} THEN FALSE
  ELSE LET A == TLCEval(Ahead(B, pts[i], pts[i + 1], tol, R)) IN
       IF i + 1 = Len(pts) THEN Len(B) \in A
       ELSE FollowR(B, pts, tol, i + 1, TLCEval({j \in A \ {Len(B)} : NearFar(pts[i + 1], B[j], B[j + 1], Slack)}))
Follows(B, pts, tol) == FollowR(B, pts, tol, 1, {1})

--------------------------------------------------------------------------
\* chains of edges through the vertices N
RECURSIVE HeadR(_, _, _, _)
HeadR(b, N, e, n) == IF b.og[e] \notin N \/ n = 0 THEN e ELSE HeadR(b, N, b.pv[e], n - 1)
RECURSIVE TailR(_, _, _, _)
TailR(b, N, e, n) == IF Tgt(b, e) \notin N \/ n = 0 THEN e ELSE TailR(b, N, b.nx[e], n - 1)
ChainHead(b, N, e) == HeadR(b, N, e, Len(b.nx))
ChainTail(b, N, e) == TailR(b, N, e, Len(b.nx))
Straight(m, cv, e) == cv[e] = <<>> /\ cv[m.tw[e]] = <<>>
\* b is m with chains in place of the curved edges
Refines(m, cv, b) ==
  LET N == Vs(b) \ Vs(m) IN
  /\ Vs(m) \subseteq Vs(b) /\ Es(m) \subseteq Es(b) /\ Fs(b) = Fs(m)
  /\ \A v \in Vs(m) : b.vp[v] = m.vp[v]
  /\ \A f \in Fs(m) : b.fp[f] = m.fp[f] /\ b.fcu[f] = m.fcu[f]
  /\ \A v \in N : Cardinality(Out(b, v)) = 2
  /\ \A e \in Es(m) :
       LET h == ChainHead(b, N, e)  t == ChainTail(b, N, e) IN
       /\ b.og[h] = m.og[e] /\ Tgt(b, t) = Tgt(m, e) /\ b.fc[e] = m.fc[e]
       /\ b.nx[t] = ChainHead(b, N, m.nx[e]) /\ b.tw[h] = ChainTail(b, N, m.tw[e])
       /\ Straight(m, cv, e) => h = e /\ t = e
  /\ SumOver([e \in Es(m) |-> Len(Seg(b, ChainHead(b, N, e), ChainTail(b, N, e)))], Es(m)) = Cardinality(Es(b))
  /\ Cardinality(Es(b)) = Cardinality(Es(m)) + 2 * Cardinality(N)
ChainPoints(m, b, y, e) ==
  LET N == Vs(b) \ Vs(m)  c == Seg(b, ChainHead(b, N, e), ChainTail(b, N, e)) IN
  [i \in 1..(Len(c) + 1) |-> IF i > Len(c) THEN y[Tgt(b, c[Len(c)])] ELSE y[b.og[c[i]]]]

FlattensRight(e) ==
  LET m == e.m  b == e.b  cv == e.cv IN
  /\ Valid(b) /\ Refines(m, cv, b)
  /\ \A v \in Vs(m) : e.y[v] = e.x[v]
  /\ \A h \in Es(m) : cv[h] # <<>> => Follows(Sampled(e.x[m.og[h]], cv[h], e.x[Tgt(m, h)], e.N), ChainPoints(m, b, e.y, h), e.tol)
  /\ \A h \in Es(b) : e.w.cv[h] = <<>>
  /\ e.w.was = (\E h \in Es(m) : cv[h] # <<>>) /\ ~e.w.now
  \* uniform flattening: the inner points at multiples of 1/n
  /\ \A h \in Es(m) :
       /\ Len(e.w.uni[h]) = e.n - 1
       /\ \A i \in 1..(e.n - 1) : Close2(e.w.uni[h][i], At(e.x[m.og[h]], cv[h], e.x[Tgt(m, h)], i, e.n), 1)
=============================================================================
