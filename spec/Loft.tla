------------------------------- MODULE Loft -------------------------------
(* Lofting, extruding and apex filling: which strip of faces covers which part of a boundary cycle.
   An operation is described by its strip S:
     F    corner cycles of the new faces (in the direction of their half-edges)
     Cov  the boundary half-edges that get covered
     ret  <<from, to>> of the returned edge
   on the new vertices xs; the new edges are the sides of the new faces that are not covered (plus dangling ones,
   `dang`). Everything else stays. *)
EXTENDS MeshQueries

Simple(m, e) == e \in Es(m) /\ m.fc[e] = 0 /\ LET c == Cyc(m, e) IN Len(c) >= 3 /\ Cardinality({m.og[x] : x \in Range(c)}) = Len(c)
L(m, e) == Len(Cyc(m, e))
\* boundary vertices walking backward from the target of e: B(0) = target, B(1) = origin, ...
BackE(m, e) == CycBack(m, e)
Bk(m, e, i) == LET c == BackE(m, e) IN IF i % Len(c) = 0 THEN Tgt(m, e) ELSE m.og[c[i % Len(c)]]
\* walking forward from the origin of e: B(0) = origin, B(1) = target, ...
Fw(m, e, i) == LET c == Cyc(m, e) IN m.og[c[(i % Len(c)) + 1]]
Ats(f(_), n) == [i \in 1..n |-> f(i)]
Cat2(s, t) == [i \in 1..(Len(s) + Len(t)) |-> IF i <= Len(s) THEN s[i] ELSE t[i - Len(s)]]
Strip(F, Cov, dang, ret) == [F |-> F, Cov |-> Cov, dang |-> dang, ret |-> ret]
First(s, n) == {s[i] : i \in 1..n}

\* triangles, walking backward
TriBack(m, e, shift, xs) ==
  LET k == Len(xs)  b(i) == Bk(m, e, i)  c == BackE(m, e)
      T(i) == IF shift THEN <<b(i), b(i-1), xs[i+1]>> ELSE <<b(i), b(i-1), xs[i]>>
      U(i) == IF shift THEN <<b(i-1), xs[i], xs[i+1]>> ELSE <<b(i), xs[i], xs[i+1]>> IN
  Strip(Cat2([i \in 1..(k-1) |-> T(i)], [i \in 1..(k-1) |-> U(i)]), First(c, k - 1),
        IF k = 1 THEN {<<b(0), xs[1]>>} ELSE {}, <<xs[1], b(0)>>)
TriBackClosed(m, e, xs) ==
  LET n == L(m, e)  b(i) == Bk(m, e, i)  nx(i) == (i % n) + 1 IN
  Strip(Cat2([i \in 1..n |-> <<b(i), b(i-1), xs[i]>>], [i \in 1..n |-> <<b(i), xs[i], xs[nx(i)]>>]),
        Range(Cyc(m, e)), {}, <<xs[1], b(0)>>)
\* triangles, walking forward
TriFw(m, e, shift, xs) ==
  LET k == Len(xs)  b(i) == Fw(m, e, i)  c == Cyc(m, e)
      T(i) == IF shift THEN <<b(i-1), b(i), xs[i+1]>> ELSE <<b(i-1), b(i), xs[i]>>
      U(i) == IF shift THEN <<b(i-1), xs[i+1], xs[i]>> ELSE <<b(i), xs[i+1], xs[i]>> IN
  Strip(Cat2([i \in 1..(k-1) |-> T(i)], [i \in 1..(k-1) |-> U(i)]), First(c, k - 1),
        IF k = 1 THEN {<<b(0), xs[1]>>} ELSE {}, <<xs[1], b(0)>>)
TriFwClosed(m, e, xs) ==
  LET n == L(m, e)  b(i) == Fw(m, e, i)  nx(i) == (i % n) + 1 IN
  Strip(Cat2([i \in 1..n |-> <<b(i-1), b(i), xs[i]>>], [i \in 1..n |-> <<b(i), xs[nx(i)], xs[i]>>]),
        Range(Cyc(m, e)), {}, <<xs[1], xs[2]>>)
\* polygons with p new and q old corners, walking backward; closed when the vertices go exactly around
PolyClosed(n, p, q, k) == \E z \in 1..n : k = z * (p - 1) /\ n = z * (q - 1)
PolyOpen(n, p, q, k) == \E z \in 0..n : k = z * (p - 1) + 1 /\ z * (q - 1) <= n - 1
\* admissible requests: a closed hem has at least two faces and three vertices
PolyOk(n, p, q, k) == IF PolyClosed(n, p, q, k) THEN k >= 3 /\ n # q - 1 ELSE PolyOpen(n, p, q, k)
PolyBack(m, e, p, q, xs) ==
  LET k == Len(xs)  n == L(m, e)  c == BackE(m, e)  b(i) == Bk(m, e, i)
      z == IF PolyClosed(n, p, q, k) THEN n \div (q - 1) ELSE (k - 1) \div (p - 1)
      face(j) == Cat2([i \in 1..q |-> b((j + 1) * (q - 1) + 1 - i)], [i \in 1..p |-> xs[((j * (p - 1) + i - 1) % k) + 1]]) IN
  Strip([j \in 1..z |-> face(j - 1)], First(c, z * (q - 1)), IF k = 1 THEN {<<b(0), xs[1]>>} ELSE {},
        IF k = 1 THEN <<m.og[e], Tgt(m, e)>> ELSE <<xs[2], xs[1]>>)
\* quads, walking forward
QuadFw(m, e, xs) ==
  LET k == Len(xs)  n == L(m, e)  c == Cyc(m, e)  b(i) == Fw(m, e, i)
      z == IF k = n THEN n ELSE k - 1 IN
  Strip([j \in 1..z |-> <<b(j - 1), b(j), xs[(j % k) + 1], xs[j]>>], First(c, z), IF k = 1 THEN {<<b(0), xs[1]>>} ELSE {},
        IF k = 1 THEN <<m.og[e], Tgt(m, e)>> ELSE <<xs[1], xs[2]>>)
\* a face on the far side of a closed hem on xs; the hem's outer boundary runs along `fwd`
Cap(S, xs, fwd) == [S EXCEPT !.F = Append(@, IF fwd THEN xs ELSE [i \in 1..Len(xs) |-> xs[Len(xs) + 1 - i]])]
Extrude(m, e, xs) == Cap(PolyBack(m, e, 2, 2, xs), xs, FALSE)
ExtrudeTri(m, e, xs) == Cap(TriFwClosed(m, e, xs), xs, TRUE)
Apex(m, e, x) == LET c == Cyc(m, e) IN
  Strip([i \in 1..Len(c) |-> <<m.og[c[i]], Tgt(m, c[i]), x>>], Range(c), {}, <<>>)

--------------------------------------------------------------------------
\* m1 is m with the strip S on the new vertices X attached to the boundary half-edges in Cyc0
Sides(S) == UNION {{{f[i], f[(i % Len(f)) + 1]} : i \in 1..Len(f)} : f \in Range(S.F)} \cup {{d[1], d[2]} : d \in S.dang}
Covered(m, S) == {{m.og[e], Tgt(m, e)} : e \in S.Cov}
Attached(m, S, X, Cyc0, m1) ==
  LET newE == Es(m1) \ Es(m)  newF == Fs(m1) \ Fs(m)  eds == {s \in Sides(S) : s \cap X # {}} IN
  /\ Valid(m1)
  /\ X \cap Vs(m) = {} /\ Vs(m1) = Vs(m) \cup X /\ Es(m) \subseteq Es(m1) /\ Fs(m) \subseteq Fs(m1)
  /\ Cardinality(newE) = 2 * Cardinality(eds) /\ {{m1.og[e], Tgt(m1, e)} : e \in newE} = eds
  /\ \A e \in newE : m1.ep[e] = 0
  /\ Cardinality(newF) = Len(S.F)
  /\ \A i \in 1..Len(S.F) : \E f \in newF :
        LET c == Cyc(m1, m1.fe[f]) IN IsRot([j \in 1..Len(c) |-> m1.og[c[j]]], S.F[i])
  /\ \A f \in newF : m1.fp[f] = 0 /\ m1.fcu[f] = 0
  /\ \A e \in Es(m) : /\ m1.og[e] = m.og[e] /\ m1.tw[e] = m.tw[e] /\ m1.ep[e] = m.ep[e]
                      /\ IF e \in S.Cov THEN m1.fc[e] \in newF ELSE m1.fc[e] = m.fc[e]
                      /\ e \notin Cyc0 => m1.nx[e] = m.nx[e] /\ m1.pv[e] = m.pv[e]
  /\ \A v \in Vs(m) : m1.vp[v] = m.vp[v]
  /\ \A f \in Fs(m) : m1.fp[f] = m.fp[f] /\ m1.fcu[f] = m.fcu[f]
\* what stays open of the cycle is one cycle
OneHole(m, Cyc0, m1) ==
  LET R == {e \in Cyc0 \cup (Es(m1) \ Es(m)) : m1.fc[e] = 0} IN
  R = {} \/ \A e \in R : Range(Cyc(m1, e)) = R
Distinct(xs) == Cardinality(Range(xs)) = Len(xs)
EdgeIs(m1, e, p) == e \in Es(m1) /\ m1.og[e] = p[1] /\ Tgt(m1, e) = p[2]
=============================================================================
