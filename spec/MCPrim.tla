------------------------------- MODULE MCPrim -------------------------------
(* Every named shape with small parameters: its scheme is a closed connected sphere with the textbook counts;
   the parameters are printed for the library to build. *)
EXTENDS Primitives, Json
CONSTANTS MaxN, MaxM, Freq, Lengths
VARIABLES o, a
vars == <<o, a>>
N == 3..MaxN
Init ==
  \/ o \in {"regular_polygon", "uniform_prism", "uniform_antiprism"} /\ \E n \in N, r \in Lengths : a = <<n, r>>
  \/ o = "regular_star" /\ \E n \in N, r, s \in Lengths : n % 2 = 0 /\ a = <<n, r, s>>
  \/ o \in {"regular_pyramid", "cone", "cylinder", "regular_prism", "regular_antiprism"} /\ \E n \in N, r, s \in Lengths : a = <<n, r, s>>
  \/ o = "regular_frustum" /\ \E n \in N, r, s, h \in Lengths : a = <<n, r, s, h>>
  \/ o = "cuboid" /\ \E r, s, h \in Lengths : a = <<1, r, s, h>>
  \/ o \in {"cube", "hexahedron", "tetrahedron", "octahedron", "dodecahedron", "icosahedron"} /\ \E r \in Lengths : a = <<1, r>>
  \/ o \in {"geo_icosahedron", "icosphere"} /\ \E n \in Freq, r \in Lengths : a = <<n, r>>
  \/ o \in {"geo_tetrahedron", "geo_octahedron"} /\ \E n \in Freq \cup {4}, r \in Lengths : a = <<n, r>>
  \/ o = "uv_sphere" /\ \E n \in 2..MaxM, m \in N, r \in Lengths : a = <<n, m, r>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
S == Scheme(o, a)
SchemeClosed == Closed(S)
V == Corners3(S)
Sizes == {Len(c[1]) : c \in S}
Deg(v) == Cardinality({d \in Darts(S) : d[1] = v})
Degs == {Deg(v) : v \in V}
nV == Cardinality(V)
nF == Cardinality(S)
Textbook == LET n == a[1] IN
  CASE Flat(o) -> nV = n /\ nF = 2
    [] o \in {"regular_frustum", "cylinder", "regular_prism", "uniform_prism"} -> nV = 2 * n /\ nF = n + 2 /\ Degs = {3} /\ Sizes = {4, n}
    [] o \in {"regular_antiprism", "uniform_antiprism"} -> nV = 2 * n /\ nF = 2 * n + 2 /\ Degs = {4} /\ Sizes = {3, n}
    [] o \in {"regular_pyramid", "cone"} -> nV = n + 1 /\ nF = n + 1 /\ Degs = {3, n} /\ Sizes = {3, n}
    [] o \in {"cuboid", "cube", "hexahedron"} -> nV = 8 /\ nF = 6 /\ Degs = {3} /\ Sizes = {4}
    [] o = "tetrahedron" -> nV = 4 /\ nF = 4 /\ Degs = {3} /\ Sizes = {3}
    [] o = "octahedron" -> nV = 6 /\ nF = 8 /\ Degs = {4} /\ Sizes = {3}
    [] o = "dodecahedron" -> nV = 20 /\ nF = 12 /\ Degs = {3} /\ Sizes = {5}
    [] o = "icosahedron" -> nV = 12 /\ nF = 20 /\ Degs = {5} /\ Sizes = {3}
    [] o \in {"geo_icosahedron", "icosphere"} -> nV = 10 * n * n + 2 /\ nF = 20 * n * n /\ Sizes = {3}
                                                 /\ Cardinality({v \in V : Deg(v) = 5}) = 12 /\ Degs \subseteq {5, 6}
    [] o = "geo_octahedron" -> nV = 4 * n * n + 2 /\ nF = 8 * n * n /\ Cardinality({v \in V : Deg(v) = 4}) = 6 /\ Degs \subseteq {4, 6}
    [] o = "geo_tetrahedron" -> nV = 2 * n * n + 2 /\ nF = 4 * n * n /\ Cardinality({v \in V : Deg(v) = 3}) = 4 /\ Degs \subseteq {3, 6}
    [] o = "uv_sphere" -> nV = (n - 1) * a[2] + 2 /\ nF = n * a[2] /\ Sizes = (IF n = 2 THEN {3} ELSE {3, 4}) /\ Degs = {4, a[2]} \cup (IF n = 2 THEN {4} ELSE {4})
EmitIn == PrintT(<<"SCRIPT", ToJson(<<o, a>>)>>)
=============================================================================
