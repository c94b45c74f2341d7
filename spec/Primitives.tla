---------------------------- MODULE Primitives ----------------------------
(* The solids and flat shapes the constructors name.
   A shape is first a scheme: a set of cycles <<corners, 1 if a face / 0 if open>> over abstract corners, closed under
   reversal of its steps. The library's mesh must be isomorphic to the scheme of its name and its corners must
   lie where the parameters say (fixed point). *)
EXTENDS MeshQueries

RECURSIVE Seq1(_, _, _)
Seq1(a, b, d) == IF (d > 0 /\ a > b) \/ (d < 0 /\ a < b) THEN <<>> ELSE <<a>> \o Seq1(a + d, b, d)
Up(a, n) == Seq1(a + 1, a + n, 1)               \* <<a+1, .., a+n>>
Down(a, n) == Seq1(a + n, a + 1, -1)
Nxt(a, n, i) == a + (i % n) + 1                 \* the successor of a+i in the ring a+1..a+n
\* the side walls between the ring a+1.. and the ring b+1..
Quads(a, b, n) == {<<<<a + i, Nxt(a, n, i), Nxt(b, n, i), b + i>>, 1>> : i \in 1..n}
Zigzag(a, b, n) == {<<<<a + i, Nxt(a, n, i), b + i>>, 1>> : i \in 1..n}
                   \cup {<<<<Nxt(a, n, i), Nxt(b, n, i), b + i>>, 1>> : i \in 1..n}
Fan(a, n, x) == {<<<<a + i, Nxt(a, n, i), x>>, 1>> : i \in 1..n}
FanDown(a, n, x) == {<<<<Nxt(a, n, i), a + i, x>>, 1>> : i \in 1..n}
Polygon(n) == {<<Up(0, n), 1>>, <<Down(0, n), 0>>}
Dihedron(n) == {<<Up(0, n), 1>>, <<Down(0, n), 1>>}
Prism(n) == {<<Down(0, n), 1>>, <<Up(n, n), 1>>} \cup Quads(0, n, n)
Antiprism(n) == {<<Down(0, n), 1>>, <<Up(n, n), 1>>} \cup Zigzag(0, n, n)
Pyramid(n) == {<<Down(0, n), 1>>} \cup Fan(0, n, n + 1)
Bipyramid(n) == Fan(0, n, n + 1) \cup FanDown(0, n, n + 2)
\* n rings of faces, m columns
UvSphere(n, m) == FanDown(0, m, (n - 1) * m + 1) \cup UNION {Quads((k - 1) * m, k * m, m) : k \in 1..(n - 2)}
                  \cup Fan((n - 2) * m, m, (n - 1) * m + 2)
Icosahedron == FanDown(0, 5, 11) \cup Zigzag(0, 5, 5) \cup Fan(5, 5, 12)
\* ring 1..5 (pentagon), 6..15 (waist, odd ones hang from the top), 16..20 (bottom)
Dodecahedron == {<<Down(0, 5), 1>>, <<Up(15, 5), 1>>}
  \cup {<<<<i, Nxt(0, 5, i), 5 + 2 * (i % 5) + 1, 5 + 2 * i, 5 + 2 * i - 1>>, 1>> : i \in 1..5}
  \cup {<<<<5 + 2 * i, 5 + 2 * (i % 5) + 1, 5 + 2 * (i % 5) + 2, 15 + (i % 5) + 1, 15 + i>>, 1>> : i \in 1..5}

\* A refined scheme: corners become weighted sums of the old ones (exact, so that midpoints of shared sides agree)
Corners3(S) == UNION {Range(c[1]) : c \in S}
Weighted(S, w) == LET n == Cardinality(Corners3(S)) IN
  {<<[j \in 1..Len(c[1]) |-> [i \in 1..n |-> IF i = c[1][j] THEN w ELSE 0]], c[2]>> : c \in S}
Half(p, q) == [i \in 1..Len(p) |-> (p[i] + q[i]) \div 2]
Refine(S) == UNION {LET t == c[1]  a == Half(t[1], t[2])  b == Half(t[2], t[3])  d == Half(t[3], t[1]) IN
                    {<<<<t[1], a, d>>, 1>>, <<<<t[2], b, a>>, 1>>, <<<<t[3], d, b>>, 1>>, <<<<a, b, d>>, 1>>} : c \in S}
RECURSIVE RefineN(_, _)
RefineN(S, n) == IF n = 1 THEN S ELSE RefineN(Refine(S), n \div 2)
Geodesic(S, n) == RefineN(Weighted(S, n), n)

\* the darts of a scheme
Steps(c) == {<<c[1][i], c[1][(i % Len(c[1])) + 1]>> : i \in 1..Len(c[1])}
Darts(S) == UNION {Steps(c) : c \in S}
SNext(S) == LET X == UNION {{<<<<c[1][i], c[1][(i % Len(c[1])) + 1]>>, <<c[1][(i % Len(c[1])) + 1], c[1][((i + 1) % Len(c[1])) + 1]>>>>
                              : i \in 1..Len(c[1])} : c \in S} IN
            [d \in Darts(S) |-> (CHOOSE x \in X : x[1] = d)[2]]
SFace(S) == LET X == UNION {{<<d, c[2]>> : d \in Steps(c)} : c \in S} IN [d \in Darts(S) |-> (CHOOSE x \in X : x[1] = d)[2]]
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN Len(c[1]) + SumLen(S \ {c})
RECURSIVE ReachR(_, _)
ReachR(D, R) == LET T == R \cup {d[2] : d \in {x \in D : x[1] \in R}} IN IF T = R THEN R ELSE ReachR(D, T)
\* every step lies on exactly one cycle, its reverse on exactly one, and the surface is a connected sphere
Closed(S) == LET D == Darts(S)  V == Corners3(S) IN
  /\ \A d \in D : d[1] # d[2] /\ <<d[2], d[1]>> \in D
  /\ Cardinality(D) = SumLen(S)
  /\ Cardinality(V) - Cardinality(D) \div 2 + Cardinality(S) = 2
  /\ ReachR(D, {CHOOSE v \in V : TRUE}) = V

Scheme(o, a) ==
  CASE o \in {"regular_polygon", "regular_star", "polygon"} -> Polygon(a[1])
    [] o = "dihedron" -> Dihedron(a[1])
    [] o \in {"prism", "frustum", "regular_frustum", "cylinder", "regular_prism", "uniform_prism"} -> Prism(a[1])
    [] o \in {"antiprism", "antiprism_iter", "regular_antiprism", "uniform_antiprism"} -> Antiprism(a[1])
    [] o \in {"pyramid", "regular_pyramid", "cone"} -> Pyramid(a[1])
    [] o \in {"cuboid", "cube", "hexahedron"} -> Prism(4)
    [] o = "tetrahedron" -> Pyramid(3)
    [] o = "octahedron" -> Bipyramid(4)
    [] o = "uv_sphere" -> UvSphere(a[1], a[2])
    [] o = "dodecahedron" -> Dodecahedron
    [] o = "icosahedron" -> Icosahedron
    [] o \in {"geo_icosahedron", "icosphere"} -> Geodesic(Icosahedron, a[1])
    [] o = "geo_tetrahedron" -> Geodesic(Pyramid(3), a[1])
    [] o = "geo_octahedron" -> Geodesic(Bipyramid(4), a[1])
Flat(o) == o \in {"regular_polygon", "regular_star", "polygon"}

--------------------------------------------------------------------------
(* Isomorphism of the part E of a mesh with a scheme: determined by the image of one half-edge *)
RECURSIVE Match(_, _, _, _, _, _, _)
Match(m, NX, FC, E, R, front, n) ==
  IF front = {} THEN /\ Cardinality(R) = Cardinality(E) /\ {x[1] : x \in R} = E
                     /\ {x[2] : x \in R} = DOMAIN NX
                     \* corners: the origin is a function of the dart's origin and vice versa
                     /\ LET C == {<<m.og[x[1]], x[2][1]>> : x \in R} IN
                        Cardinality(C) = Cardinality({c[1] : c \in C}) /\ Cardinality(C) = Cardinality({c[2] : c \in C})
  ELSE LET new == {<<m.nx[x[1]], NX[x[2]]>> : x \in front} \cup {<<m.tw[x[1]], <<x[2][2], x[2][1]>>>> : x \in front}
           R2 == R \cup new IN
       /\ \A x \in new : (m.fc[x[1]] # 0) = (FC[x[2]] = 1)
       /\ Cardinality(R2) <= Cardinality(E)
       /\ Match(m, NX, FC, E, R2, new \ R, n + 1)
IsoTo(m, E, S) ==
  LET NX == SNext(S)  FC == SFace(S)  e == CHOOSE e \in E : TRUE IN
  /\ Cardinality(E) = Cardinality(DOMAIN NX)
  /\ \E d \in DOMAIN NX : (m.fc[e] # 0) = (FC[d] = 1) /\ Match(m, NX, FC, E, {<<e, d>>}, {<<e, d>>}, 0)

--------------------------------------------------------------------------
(* Geometry, in fixed point: x is the positions (times 1024), parameters likewise *)
Ab(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Ab(x - y) <= t
D3(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Sq(d) == d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
\* squared lengths equal up to rounding of coordinates (each off by at most 1/2, so by 2 in length)
NearSq(s, l) == Near(s, l * l, 5 * l + 12)
Len2(m, x, e) == Sq(D3(x[m.og[e]], x[Tgt(m, e)]))
AllSides(m, x, E, l) == \A e \in E : NearSq(Len2(m, x, e), l)
\* integer square root
RECURSIVE Root(_, _, _)
Root(s, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET k == (lo + hi) \div 2 IN IF k * k <= s THEN Root(s, k, hi) ELSE Root(s, lo, k)
ISqrt(s) == Root(s, 0, 46340)
SameSq(s, t) == Near(s, t, 8 * ISqrt(s) + 20)
SameBall(m, x, V) == LET s == Sq(x[CHOOSE v \in V : TRUE]) IN \A v \in V : SameSq(s, Sq(x[v]))
SameLen(m, x, E) == E = {} \/ LET s == Len2(m, x, CHOOSE e \in E : TRUE) IN \A e \in E : SameSq(s, Len2(m, x, e))
OnCircle(x, v, r, y) == Near(x[v][2], y, 1) /\ NearSq(x[v][1] * x[v][1] + x[v][3] * x[v][3], r)
OnBall(x, v, r) == NearSq(Sq(x[v]), r)
At(x, v, p) == \A i \in 1..3 : Near(x[v][i], p[i], 1)
Places(x, V, P) == /\ \A p \in P : Cardinality({v \in V : At(x, v, p)}) = 1
                   /\ \A v \in V : \E p \in P : At(x, v, p)
Ring(m, x, V, y) == {v \in V : Near(x[v][2], y, 1)}
\* a regular n-gon of radius r at height y: n corners on the circle, joined by n equal sides
Regular(m, x, E, V, n, r, y) ==
  LET R == {v \in V : OnCircle(x, v, r, y)}  S == {e \in E : m.og[e] \in R /\ Tgt(m, e) \in R} IN
  Cardinality(R) = n /\ Cardinality(S) = 2 * n /\ SameLen(m, x, S)
\* lateral edges lie in planes through the axis
Upright(m, x, E, V) == \A e \in E : LET p == x[m.og[e]]  q == x[Tgt(m, e)] IN
   Near(p[2], q[2], 1) \/ Near(p[1] * q[3], p[3] * q[1], 3 * (Ab(p[1]) + Ab(p[3]) + Ab(q[1]) + Ab(q[3])) + 10)
Pts(b) == {b[i] : i \in 1..Len(b)}
Shift(p, ax, h) == [p EXCEPT ![ax] = @ + h]
Tops(m, V, E, x, P) == {v \in V : ~\E p \in P : At(x, v, p)}

\* o: constructor, a: its parameters (lengths times 1024), b: its point lists (likewise), x: where the corners are
Placed(m, E, V, o, a, b, x) ==
  LET n == a[1] IN
  CASE o \in {"polygon", "dihedron"} -> Places(x, V, Pts(b[1]))
    [] o = "regular_polygon" ->
         /\ \A v \in V : Near(x[v][3], 0, 1) /\ NearSq(x[v][1] * x[v][1] + x[v][2] * x[v][2], a[2])
         /\ SameLen(m, x, E)
    [] o = "regular_star" ->
         /\ \A v \in V : Near(x[v][3], 0, 1)
         /\ \A e \in E : LET p == x[m.og[e]]  q == x[Tgt(m, e)]  u == p[1] * p[1] + p[2] * p[2]  w == q[1] * q[1] + q[2] * q[2] IN
               (NearSq(u, a[2]) /\ NearSq(w, a[3])) \/ (NearSq(u, a[3]) /\ NearSq(w, a[2]))
         /\ SameLen(m, x, E)
    [] o \in {"prism", "antiprism"} ->
         \* base b[1] in the plane of the axes other than a[3]; a[2] = height
         LET B == Pts(b[1])  ax == a[3]  T == {v \in V : ~\E p \in B : At(x, v, p)} IN
         /\ Places(x, V \ T, B) /\ Cardinality(T) = n
         /\ \E h \in {a[2], -a[2]} : \A v \in T : Near(x[v][ax], b[1][1][ax] + h, 1)
         /\ IF o = "prism" THEN
              \* each top corner is right above the base corner it is joined to
              \E h \in {a[2], -a[2]} : \A v \in T : \E e \in E : m.og[e] = v /\ At(x, v, Shift(x[Tgt(m, e)], ax, h))
            ELSE
              \* each top corner is above the middle of the base edge it is joined to
              \A v \in T : \E e1, e2 \in E : /\ m.og[e1] = v /\ m.og[e2] = v /\ e1 # e2 /\ Tgt(m, e1) \notin T /\ Tgt(m, e2) \notin T
                 /\ \A i \in {1, 2, 3} \ {ax} : Near(2 * x[v][i], x[Tgt(m, e1)][i] + x[Tgt(m, e2)][i], 3)
    [] o \in {"antiprism_iter", "frustum", "pyramid"} ->
         LET P == Pts(b[1]) \cup Pts(b[2]) IN
         /\ Places(x, V, P)
         \* the rings are the given polygons, in order
         /\ \A k \in 1..2 : Len(b[k]) < 3 \/ \A i \in 1..Len(b[k]) :
               \E e \in E : At(x, m.og[e], b[k][i]) /\ At(x, Tgt(m, e), b[k][(i % Len(b[k])) + 1])
         \* i-th top corner on i-th bottom corner
         /\ o # "frustum" \/ \A i \in 1..n : \E e \in E : At(x, m.og[e], b[1][i]) /\ At(x, Tgt(m, e), b[2][i])
    [] o = "cuboid" -> /\ \A v \in V, i \in 1..3 : Near(2 * Ab(x[v][i]), a[i + 1], 2)
                       /\ \A e \in E : Cardinality({i \in 1..3 : Near(x[m.og[e]][i], x[Tgt(m, e)][i], 1)}) = 2
    [] o \in {"cube", "hexahedron"} -> /\ \A v \in V, i \in 1..3 : Near(2 * Ab(x[v][i]), a[2], 2)
                                       /\ AllSides(m, x, E, a[2])
    [] o \in {"regular_pyramid", "cone"} ->
         /\ Regular(m, x, E, V, n, a[2], 0) /\ \E v \in V : At(x, v, <<0, a[3], 0>>) /\ Cardinality(Out(m, v)) = n
    [] o = "tetrahedron" -> AllSides(m, x, E, a[2]) /\ SameBall(m, x, V)
    [] o = "icosahedron" -> AllSides(m, x, E, a[2]) /\ SameBall(m, x, V)
    [] o \in {"octahedron", "dodecahedron"} -> SameLen(m, x, E) /\ \A v \in V : OnBall(x, v, a[2])
    [] o = "regular_frustum" -> Regular(m, x, E, V, n, a[2], 0) /\ Regular(m, x, E, V, n, a[3], a[4]) /\ Upright(m, x, E, V)
    [] o = "cylinder" -> Regular(m, x, E, V, n, a[2], 0) /\ Regular(m, x, E, V, n, a[2], a[3]) /\ Upright(m, x, E, V)
    [] o = "regular_prism" -> LET h == (CHOOSE h \in {a[3], -a[3]} : \A v \in V : Near(x[v][2], 0, 1) \/ Near(x[v][2], h, 1)) IN
         Regular(m, x, E, V, n, a[2], 0) /\ Regular(m, x, E, V, n, a[2], h) /\ Upright(m, x, E, V)
    [] o = "regular_antiprism" -> Regular(m, x, E, V, n, a[2], 0) /\ Regular(m, x, E, V, n, a[2], a[3])
                                  /\ SameLen(m, x, {e \in E : ~Near(x[m.og[e]][2], x[Tgt(m, e)][2], 1)})
    [] o \in {"uniform_prism", "uniform_antiprism"} ->
         /\ SameLen(m, x, E)
         /\ \A v \in V : NearSq(x[v][1] * x[v][1] + x[v][3] * x[v][3], a[2])
    [] o = "uv_sphere" ->
         /\ \A v \in V : OnBall(x, v, a[3])
         /\ Places(x, {v \in V : Near(x[v][1], 0, 1) /\ Near(x[v][3], 0, 1)}, {<<0, a[3], 0>>, <<0, -a[3], 0>>})
         \* meridians are cut into equal parts, rings too
         /\ SameLen(m, x, {e \in E : ~Near(x[m.og[e]][2], x[Tgt(m, e)][2], 2)})
         /\ \A v \in V : SameLen(m, x, {e \in E : m.og[e] = v /\ Near(x[v][2], x[Tgt(m, e)][2], 2)})
    [] o \in {"geo_icosahedron", "icosphere", "geo_tetrahedron", "geo_octahedron"} ->
         \A v \in V : OnBall(x, v, a[2])
=============================================================================
