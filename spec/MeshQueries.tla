---------------------------- MODULE MeshQueries ----------------------------
(* What walks, queries and the checker must answer on a consistent mesh, defined on the mesh's relations
   (HalfEdge) and not on any traversal. *)
EXTENDS HalfEdge

Len0(s) == Len(s)
RotOf(s, k) == [i \in 1..Len(s) |-> s[((i + k - 2) % Len(s)) + 1]]      \* s starting at its k-th element
IsRot(s, t) == Len(s) = Len(t) /\ (Len(s) = 0 \/ \E k \in 1..Len(s) : RotOf(s, k) = t)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
\* the wheel of v: outgoing edges in clockwise order, from its representative
RECURSIVE WheelR(_, _, _, _)
WheelR(m, e, first, acc) == LET n == m.nx[m.tw[e]] IN
  IF n = first \/ Len(acc) > Len(m.nx) THEN acc ELSE WheelR(m, n, first, Append(acc, n))
WheelOf(m, v) == IF m.ve[v] = 0 THEN <<>> ELSE WheelR(m, m.ve[v], m.ve[v], <<m.ve[v]>>)
CycBack(m, e) == LET c == Cyc(m, e) IN [i \in 1..Len(c) |-> IF i = 1 THEN c[1] ELSE c[Len(c) + 2 - i]]
NonZero(s) == SelectSeq(s, LAMBDA x : x # 0)

VertexWalk(m, v, w) ==
  LET h == WheelOf(m, v) IN
  /\ Range(h) = Out(m, v)                      \* (a consequence of Wheels)
  /\ IsRot(w.out, h) /\ IsRot(w.in, [i \in 1..Len(h) |-> m.tw[h[i]]])
  /\ IsRot(w.nb, [i \in 1..Len(h) |-> Tgt(m, h[i])]) /\ w.nbi = w.nb
  /\ IsRot(w.fc, NonZero([i \in 1..Len(h) |-> m.fc[h[i]]]))
  /\ w.deg = Cardinality(Out(m, v))
EdgeWalk(m, e, w) ==
  LET c == Cyc(m, e)  n == Len(c) IN
  /\ w.fw = c /\ w.fw2 = c /\ w.mut = c /\ w.bw = CycBack(m, e) /\ w.bw2 = w.bw
  /\ w.len = [i \in 1..(n + 1) |-> n + 1 - i]
FaceWalk(m, f, w) ==
  LET c == Cyc(m, m.fe[f])  n == Len(c) IN
  /\ IsRot(w.e, c) /\ w.ei = w.e /\ w.n = <<n, n>> /\ w.nt = (n - 2) * 3 /\ w.vl = n
  /\ IsRot(w.v, [i \in 1..n |-> m.og[c[i]]]) /\ w.vi = w.v
Walks(m, w) ==
  /\ \A v \in Vs(m) : VertexWalk(m, v, w.v[v])
  /\ \A e \in Es(m) : EdgeWalk(m, e, w.e[e])
  /\ \A f \in Fs(m) : FaceWalk(m, f, w.f[f])
  /\ LET P == {{p[1], p[2]} : p \in Range(w.tw)} IN
     P = {{e, m.tw[e]} : e \in Es(m)} /\ Len(w.tw) * 2 = Cardinality(Es(m)) /\ \A p \in Range(w.tw) : p[2] = m.tw[p[1]]

--------------------------------------------------------------------------
RECURSIVE SortedR(_, _, _)
SortedR(S, n, acc) == IF S = {} THEN acc ELSE IF n \in S THEN SortedR(S \ {n}, n + 1, Append(acc, n)) ELSE SortedR(S, n + 1, acc)
Sorted(S) == SortedR(S, 1, <<>>)
FacesAt(m, v) == {m.fc[e] : e \in Out(m, v)} \ {0}
\* breadth first layers from v: the distance of w, or -1
RECURSIVE DistR(_, _, _, _, _)
DistR(m, S, B, w, n) == IF w \in B THEN n ELSE
  LET T == {Tgt(m, e) : e \in {x \in Es(m) : m.og[x] \in B}} \ S IN
  IF T = {} THEN -1 ELSE DistR(m, S \cup T, T, w, n + 1)
Dist(m, v, w) == DistR(m, {v}, {v}, w, 0)
Linked(m, v, w) == \E e \in Es(m) : m.og[e] = v /\ Tgt(m, e) = w

VertexAnswers(m, v, w) ==
  /\ w.b = (\E e \in Out(m, v) : m.fc[e] = 0 \/ m.fc[m.tw[e]] = 0)
  /\ w.one = (Cardinality(Out(m, v)) = 1)
  /\ w.e = m.ve[v] /\ w.e2 = m.ve[v]
  /\ Len(w.fan) = 2 => /\ w.fan[1] = (IF Corners(m, v) = {} THEN 0 ELSE CornerOf(m, v))
                       /\ w.fan[2] = (IF Corners(m, v) = {} THEN 0 ELSE m.pv[CornerOf(m, v)])
EdgeAnswers(m, e, w) ==
  LET c == {m.og[x] : x \in Range(Cyc(m, e))}  t == m.tw[e] IN
  /\ w.bs = (m.fc[e] = 0) /\ w.b = (m.fc[e] = 0 \/ m.fc[t] = 0)
  /\ w.t = m.og[t] /\ w.t2 = m.og[t] /\ w.o = m.og[e] /\ w.lk = <<m.nx[e], m.pv[e], t>>
  /\ w.f = m.fc[e] /\ w.of = m.fc[t] /\ w.fs = NonZero(<<m.fc[e], m.fc[t]>>)
  /\ w.sf = Sorted(c) /\ w.sb = Sorted(c)
PairAnswers(m, p) ==
  LET v == p.v  w == p.w  d == Dist(m, v, w) IN
  /\ IF Linked(m, v, w) THEN p.e \in Es(m) /\ m.og[p.e] = v /\ Tgt(m, p.e) = w /\ p.e2 \in Es(m) /\ m.og[p.e2] = v /\ Tgt(m, p.e2) = w
     ELSE p.e = 0 /\ p.e2 = 0
  /\ IF FacesAt(m, v) \cap FacesAt(m, w) = {} THEN p.f = 0 ELSE p.f \in FacesAt(m, v) \cap FacesAt(m, w)
  /\ IF d = -1 THEN p.path = <<>>
     ELSE /\ Len(p.path) = d + 1 /\ p.path[1] = v /\ p.path[d + 1] = w
          /\ \A i \in 1..d : Linked(m, p.path[i], p.path[i + 1])
Answers(m, w) ==
  /\ w.has = Sorted(Vs(m)) /\ w.vi = w.has /\ w.ei = Sorted(Es(m)) /\ w.fi = Sorted(Fs(m))
  \* the same elements, to change them
  /\ w.vm = w.vi /\ w.em = w.ei /\ w.fm = w.fi
  /\ w.n = <<Cardinality(Vs(m)), Cardinality(Es(m)), Cardinality(Fs(m))>>
  /\ w.open = (\E e \in Es(m) : m.fc[e] = 0) /\ w.cons = (Vs(m) = 1..Cardinality(Vs(m)))
  /\ \A v \in Vs(m) : VertexAnswers(m, v, w.v[v])
  /\ \A e \in Es(m) : EdgeAnswers(m, e, w.e[e])
  /\ \A i \in 1..Len(w.pairs) : PairAnswers(m, w.pairs[i])
  /\ {<<w.pairs[i].v, w.pairs[i].w>> : i \in 1..Len(w.pairs)} = Vs(m) \X Vs(m)

--------------------------------------------------------------------------
\* the checker's verdict: consistent, every edge borders a face, every face has at least three corners
Polygonal(m) == /\ \A e \in Es(m) : m.fc[e] # 0 \/ m.fc[m.tw[e]] # 0
                /\ \A f \in Fs(m) : Len(Cyc(m, m.fe[f])) >= 3
Passes(m) == Valid(m) /\ Polygonal(m)
=============================================================================
