----------------------------- MODULE Subdivide -----------------------------
(* Loop subdivision. Geometry first: a mesh is abstracted to the positions of its corners; every triangle splits
   into four at the midpoints of its sides, every boundary cycle gets the midpoints in between. *)
EXTENDS MeshQueries
Corn(m, f) == LET c == Cyc(m, m.fe[f]) IN [i \in 1..Len(c) |-> m.og[c[i]]]
Triangular(m) == /\ \A e \in Es(m) : m.fc[e] # 0 \/ m.fc[m.tw[e]] # 0
                 /\ \A f \in Fs(m) : Len(Cyc(m, m.fe[f])) = 3
Mid(p, q) == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2, (p[3] + q[3]) \div 2>>
\* a triangle as a cyclic triple: starts at its least corner (any total order will do: CHOOSE is deterministic)
Canon(t) == CHOOSE u \in {t, <<t[2], t[3], t[1]>>, <<t[3], t[1], t[2]>>} : TRUE
Rots(t) == {t, <<t[2], t[3], t[1]>>, <<t[3], t[1], t[2]>>}
\* tris: a set of <<rotations of a triple of positions, payload>>
TrisOf(m) == {<<Rots([i \in 1..3 |-> m.pos[Corn(m, f)[i]]]), m.fp[f]>> : f \in Fs(m)}
Split(x) == LET t == CHOOSE t \in x[1] : TRUE  a == Mid(t[1], t[2])  b == Mid(t[2], t[3])  c == Mid(t[3], t[1]) IN
  {<<Rots(<<t[1], a, c>>), x[2]>>, <<Rots(<<t[2], b, a>>), x[2]>>, <<Rots(<<t[3], c, b>>), x[2]>>, <<Rots(<<a, b, c>>), x[2]>>}
\* sides: undirected edges as sets of two positions
SidesOf(m) == {{m.pos[m.og[e]], m.pos[Tgt(m, e)]} : e \in Es(m)}
SplitSides(D, T) == UNION {LET p == CHOOSE p \in d : TRUE  q == CHOOSE q \in d : q # p IN {{p, Mid(p, q)}, {Mid(p, q), q}} : d \in D}
   \cup UNION {LET t == CHOOSE t \in x[1] : TRUE  a == Mid(t[1], t[2])  b == Mid(t[2], t[3])  c == Mid(t[3], t[1]) IN
               {{a, b}, {b, c}, {c, a}} : x \in T}
\* boundary as pairs of consecutive half-edges: <<from, via, to>>
HoleSteps(m) == {<<m.pos[m.og[e]], m.pos[Tgt(m, e)], m.pos[Tgt(m, m.nx[e])]>> : e \in {x \in Es(m) : m.fc[x] = 0}}
SplitSteps(B) == UNION {{<<s[1], Mid(s[1], s[2]), s[2]>>, <<Mid(s[1], s[2]), s[2], Mid(s[2], s[3])>>} : s \in B}
Points(D) == UNION D
RECURSIVE Iter(_, _, _, _)
Iter(T, D, B, k) == IF k = 0 THEN <<T, D, B>> ELSE Iter(UNION {Split(x) : x \in T}, SplitSides(D, T), SplitSteps(B), k - 1)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
\* positions tell vertices apart, before and after k rounds
Generic(m, k) ==
  /\ Cardinality({m.pos[v] : v \in Vs(m)}) = Cardinality(Vs(m))
  /\ LET I == Iter(TrisOf(m), SidesOf(m), {}, k)  iso == {m.pos[v] : v \in {x \in Vs(m) : m.ve[x] = 0}} IN
     /\ Cardinality(SidesOf(m)) = NumEdges(m)
     /\ Cardinality(I[2]) = NumEdges(m) * Pow(2, k) + 3 * Cardinality(Fs(m)) * ((Pow(4, k) - Pow(2, k)) \div 2)
     /\ Points(I[2]) \cap iso = {}
     \* Euler: refinement does not change V - E + F
     /\ Cardinality(Points(I[2])) - Cardinality(I[2]) + Cardinality(Fs(m)) * Pow(4, k)
        = (Cardinality(Vs(m)) - Cardinality(iso)) - NumEdges(m) + Cardinality(Fs(m))
Subdivided(m, k, m1) ==
  LET I == Iter(TrisOf(m), SidesOf(m), HoleSteps(m), k) IN
  /\ Valid(m1) /\ \A f \in Fs(m1) : Len(Cyc(m1, m1.fe[f])) = 3
  /\ Cardinality(Fs(m1)) = Cardinality(Fs(m)) * Pow(4, k)
  /\ Cardinality(Es(m1)) = 2 * Cardinality(I[2]) /\ SidesOf(m1) = I[2]
  /\ Vs(m) \subseteq Vs(m1) /\ \A v \in Vs(m) : m1.pos[v] = m.pos[v] /\ m1.vp[v] = m.vp[v]
  /\ \A v \in Vs(m1) \ Vs(m) : m1.vp[v] = 0
  /\ {m1.pos[v] : v \in Vs(m1)} = Points(I[2]) \cup {m.pos[v] : v \in Vs(m)}
  /\ Cardinality({m1.pos[v] : v \in Vs(m1)}) = Cardinality(Vs(m1))
  /\ TrisOf(m1) = I[1]
  /\ HoleSteps(m1) = I[3]

\* Spherical interpolation, one round, in fixed point (positions scaled by K): a new vertex lies on the sphere
\* halfway between the directions of the ends
K == 4096
Sub3(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Dot(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
Cross(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
Abs(x) == IF x < 0 THEN -x ELSE x
Within(x, t) == Abs(x) <= t
\* c, r: centre and radius (scaled). All old vertices are on the sphere.
OnSphere(p, c, r) == LET d == Sub3(p, c) IN Within(Dot(d, d) - r * r, 6 * r + 40)
Halfway(x, p, q, c, r) == LET d == Sub3(x, c)  u == Sub3(p, c)  w == Sub3(q, c)  s == <<u[1] + w[1], u[2] + w[2], u[3] + w[3]>>
                              z == Cross(d, s) IN
   OnSphere(x, c, r) /\ Dot(d, s) > 0 /\ \A i \in 1..3 : Within(z[i], 8 * r)
SlerpMid(m, m1, p, q, c, r) == LET X == {x \in Vs(m1) \ Vs(m) : Halfway(m1.fx[x], m1.fx[p], m1.fx[q], c, r)} IN
                               IF Cardinality(X) = 1 THEN CHOOSE x \in X : TRUE ELSE 0
\* one round, vertex by vertex: mid[e] is the new vertex on e
Refined(m, m1, mid) ==
  LET H == {e \in Es(m) : m.fc[e] = 0} IN
  /\ Valid(m1) /\ Vs(m) \subseteq Vs(m1) /\ \A v \in Vs(m) : m1.vp[v] = m.vp[v]
  /\ 0 \notin {mid[e] : e \in Es(m)}
  /\ Vs(m1) = Vs(m) \cup {mid[e] : e \in Es(m)} /\ 2 * Cardinality({mid[e] : e \in Es(m)}) = Cardinality(Es(m))
  /\ \A e \in Es(m) : m1.vp[mid[e]] = 0 /\ mid[e] = mid[m.tw[e]]
  /\ Cardinality(Fs(m1)) = 4 * Cardinality(Fs(m)) /\ Cardinality(Es(m1)) = 2 * Cardinality(Es(m)) + 6 * Cardinality(Fs(m))
  /\ {<<Rots(Corn(m1, f)), m1.fp[f]>> : f \in Fs(m1)} =
       UNION {LET e == Cyc(m, m.fe[f])  t == Corn(m, f)  a == mid[e[1]]  b == mid[e[2]]  d == mid[e[3]]  y == m.fp[f] IN
              {<<Rots(<<t[1], a, d>>), y>>, <<Rots(<<t[2], b, a>>), y>>, <<Rots(<<t[3], d, b>>), y>>, <<Rots(<<a, b, d>>), y>>} : f \in Fs(m)}
  /\ {<<m1.og[e], Tgt(m1, e), Tgt(m1, m1.nx[e])>> : e \in {x \in Es(m1) : m1.fc[x] = 0}}
     = UNION {{<<m.og[e], mid[e], Tgt(m, e)>>, <<mid[e], Tgt(m, e), mid[m.nx[e]]>>} : e \in H}
SlerpRight(m, m1, c, r) == /\ Vs(m) \subseteq Vs(m1) /\ \A v \in Vs(m) : m1.fx[v] = m.fx[v]
                           /\ Refined(m, m1, [e \in Es(m) |-> SlerpMid(m, m1, m.og[e], Tgt(m, e), c, r)])
LinMid(m, m1, e) == LET X == {x \in Vs(m1) \ Vs(m) : m1.pos[x] = Mid(m.pos[m.og[e]], m.pos[Tgt(m, e)])} IN
                    IF Cardinality(X) = 1 THEN CHOOSE x \in X : TRUE ELSE 0
LinRight(m, m1) == /\ Vs(m) \subseteq Vs(m1) /\ \A v \in Vs(m) : m1.pos[v] = m.pos[v]
                   /\ Refined(m, m1, [e \in Es(m) |-> LinMid(m, m1, e)])
\* the midpoints tell the edges apart
Apart(m) == Cardinality({Mid(m.pos[m.og[e]], m.pos[Tgt(m, e)]) : e \in Es(m)}) = NumEdges(m)
=============================================================================
