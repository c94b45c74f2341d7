-------------------------------- MODULE Iso --------------------------------
(* When two meshes are the same up to renaming, and when with the same ids. Defined on the relations of HalfEdge,
   for meshes with at most one edge between two vertices. *)
EXTENDS MeshQueries
Arcs(m) == {<<m.og[e], Tgt(m, e)>> : e \in Es(m)}
Simple(m) == Cardinality(Arcs(m)) = Cardinality(Es(m))
NoLoops(m) == \A e \in Es(m) : m.og[e] # Tgt(m, e)
Plain(m) == Valid(m) /\ Simple(m) /\ NoLoops(m)
SameSize(a, b) == Cardinality(Vs(a)) = Cardinality(Vs(b)) /\ Cardinality(Es(a)) = Cardinality(Es(b)) /\ Cardinality(Fs(a)) = Cardinality(Fs(b))
CornersOf(m, f) == LET c == Cyc(m, m.fe[f]) IN [i \in 1..Len(c) |-> m.og[c[i]]]
EdgeFromTo(m, v, w) == CHOOSE e \in Es(m) : m.og[e] = v /\ Tgt(m, e) = w
\* a bijection between the vertices, as a function on 1..Len
IsBij(a, b, phi) == /\ \A v \in Vs(a) : v \in DOMAIN phi /\ phi[v] \in Vs(b)
                    /\ \A v, w \in Vs(a) : phi[v] = phi[w] => v = w
                    /\ Cardinality(Vs(a)) = Cardinality(Vs(b))
Image(phi, s) == [i \in 1..Len(s) |-> phi[s[i]]]
FaceImage(a, b, phi, f, g) == IsRot(Image(phi, CornersOf(a, f)), CornersOf(b, g))
\* phi preserves which vertices are joined and which cycles of corners are faces
IsoVia(a, b, phi) ==
  /\ SameSize(a, b) /\ IsBij(a, b, phi)
  /\ {<<phi[p[1]], phi[p[2]]>> : p \in Arcs(a)} = Arcs(b)
  /\ \A f \in Fs(a) : \E g \in Fs(b) : FaceImage(a, b, phi, f, g)
\* and the payloads
PayloadIsoVia(a, b, phi) ==
  /\ IsoVia(a, b, phi)
  /\ \A v \in Vs(a) : a.vp[v] = b.vp[phi[v]]
  /\ \A e \in Es(a) : a.ep[e] = b.ep[EdgeFromTo(b, phi[a.og[e]], phi[Tgt(a, e)])]
  /\ \A f \in Fs(a) : \A g \in Fs(b) : FaceImage(a, b, phi, f, g) => a.fp[f] = b.fp[g]
\* the identity preserves ids, connectivity and the order of edges around every vertex
Trivial(a, b) ==
  /\ Vs(a) = Vs(b) /\ Es(a) = Es(b) /\ Fs(a) = Fs(b)
  /\ \A e \in Es(a) : a.og[e] = b.og[e] /\ a.tw[e] = b.tw[e] /\ a.nx[e] = b.nx[e] /\ a.fc[e] = b.fc[e]

\* the renaming of all elements of m by permutations of their ids
Renamed(m, sv, se, sf) ==
  LET V == Vs(m)  E == Es(m)  F == Fs(m)
      inv(s, i) == CHOOSE j \in DOMAIN s : s[j] = i
      z(s, x) == IF x = 0 THEN 0 ELSE s[x]
      b(S, s, g(_)) == [i \in 1..Len(IF S = "V" THEN m.ve ELSE IF S = "E" THEN m.nx ELSE m.fe) |->
                          IF i \in (CASE S = "V" -> V [] S = "E" -> E [] S = "F" -> F) THEN g(inv(s, i)) ELSE Dead] IN
  [nx |-> b("E", se, LAMBDA i : se[m.nx[i]]), pv |-> b("E", se, LAMBDA i : se[m.pv[i]]), tw |-> b("E", se, LAMBDA i : se[m.tw[i]]),
   og |-> b("E", se, LAMBDA i : sv[m.og[i]]), fc |-> b("E", se, LAMBDA i : z(sf, m.fc[i])), ep |-> b("E", se, LAMBDA i : m.ep[i]),
   ve |-> b("V", sv, LAMBDA i : z(se, m.ve[i])), vp |-> b("V", sv, LAMBDA i : m.vp[i]),
   fe |-> b("F", sf, LAMBDA i : se[m.fe[i]]), fp |-> b("F", sf, LAMBDA i : m.fp[i]), fcu |-> b("F", sf, LAMBDA i : m.fcu[i])]

--------------------------------------------------------------------------
\* answers <<kind, x, y>>; the reported difference must be one
Eq == 0  DV == 4  DE == 5  DF == 6  NV0 == 7  NE0 == 8  NF0 == 9
Sizes(a, b, r) == CASE r[1] = 1 -> Cardinality(Vs(a)) # Cardinality(Vs(b))
                    [] r[1] = 2 -> Cardinality(Es(a)) # Cardinality(Es(b))
                    [] r[1] = 3 -> Cardinality(Fs(a)) # Cardinality(Fs(b))
                    [] OTHER -> SameSize(a, b)
\* V(v, w), E(e, f), F(f, g): these differ in payload
Difference(a, b, phi, r, V(_, _), E(_, _), F(_, _)) ==
  /\ Sizes(a, b, r)
  /\ CASE r[1] = DV -> r[2] \in Vs(a) /\ r[3] = phi[r[2]] /\ V(r[2], r[3])
       [] r[1] = DE -> r[2] \in Es(a) /\ r[3] \in Es(b) /\ phi[a.og[r[2]]] = b.og[r[3]] /\ phi[Tgt(a, r[2])] = Tgt(b, r[3]) /\ E(r[2], r[3])
       [] r[1] = DF -> r[2] \in Fs(a) /\ r[3] \in Fs(b) /\ FaceImage(a, b, phi, r[2], r[3]) /\ F(r[2], r[3])
       [] r[1] = NE0 -> r[2] \in Es(a) /\ <<phi[a.og[r[2]]], phi[Tgt(a, r[2])]>> \notin Arcs(b)
       [] r[1] = NF0 -> r[2] \in Fs(a) /\ \A g \in Fs(b) : ~FaceImage(a, b, phi, r[2], g)
       [] OTHER -> r[1] \in 1..3
No(x, y) == FALSE
Answer(a, b, phi, r) == IF IsoVia(a, b, phi) THEN r[1] = Eq ELSE Difference(a, b, phi, r, No, No, No)
PayloadAnswer(a, b, phi, r) == IF PayloadIsoVia(a, b, phi) THEN r[1] = Eq
  ELSE Difference(a, b, phi, r, LAMBDA v, w : a.vp[v] # b.vp[w], LAMBDA e, f : a.ep[e] # b.ep[f], LAMBDA f, g : a.fp[f] # b.fp[g])
TrivialDifference(a, b, r, V(_, _), E(_, _)) ==
  /\ Sizes(a, b, r)
  /\ CASE r[1] = DV -> r[2] = r[3] /\ r[2] \in Vs(a) /\ r[2] \in Vs(b) /\ (V(r[2], r[2]) \/ ~IsRot(WheelOf(a, r[2]), WheelOf(b, r[2])))
       [] r[1] = DE -> r[2] = r[3] /\ r[2] \in Es(a) /\ r[2] \in Es(b) /\ (E(r[2], r[2]) \/ a.og[r[2]] # b.og[r[2]] \/ Tgt(a, r[2]) # Tgt(b, r[2]))
       [] r[1] = DF -> r[2] = r[3] /\ r[2] \in Fs(a) /\ r[2] \in Fs(b) /\ ~IsRot(Cyc(a, a.fe[r[2]]), Cyc(b, b.fe[r[2]]))
       [] r[1] = NV0 -> Vs(a) # Vs(b)
       [] r[1] = NE0 -> r[2] \in Es(a) \ Es(b)
       [] r[1] = NF0 -> r[2] \in Fs(a) \ Fs(b)
       [] OTHER -> r[1] \in 1..3
TrivialAnswer(a, b, r) == IF Trivial(a, b) THEN r[1] = Eq ELSE TrivialDifference(a, b, r, No, No)

\* positions in eighths; Near: equal up to one half in every coordinate
Near(p, q) == \A i \in 1..Len(p) : p[i] - q[i] <= 4 /\ q[i] - p[i] <= 4
AllNear(a, x, y) == \A v \in Vs(a) : Near(x[v], y[v])
TrivialPosAnswer(a, b, x, y, r) == IF Trivial(a, b) /\ AllNear(a, x, y) THEN r[1] = Eq
                                   ELSE TrivialDifference(a, b, r, LAMBDA v, w : ~Near(x[v], y[v]), No)
\* c, d: the control points of every half-edge
CurveNear(c, d) == Len(c) = Len(d) /\ \A i \in 1..Len(c) : Near(c[i], d[i])
CurvedAnswer(a, b, x, y, c, d, r) ==
  IF Trivial(a, b) /\ AllNear(a, x, y) /\ (\A e \in Es(a) : CurveNear(c[e], d[e])) THEN r[1] = Eq
  ELSE TrivialDifference(a, b, r, LAMBDA v, w : ~Near(x[v], y[v]), LAMBDA e, f : ~CurveNear(c[e], d[e]))
\* the pairing of the vertices a relation describes; it must not be ambiguous
Unambiguous(a, b, R(_, _)) == /\ \A v \in Vs(a) : Cardinality({w \in Vs(b) : R(v, w)}) <= 1
                              /\ \A w \in Vs(b) : Cardinality({v \in Vs(a) : R(v, w)}) <= 1
Pairing(a, b, R(_, _)) == [v \in 1..Len(a.ve) |-> IF v \in Vs(a) /\ (\E w \in Vs(b) : R(v, w)) THEN CHOOSE w \in Vs(b) : R(v, w) ELSE 0]
Total(a, phi) == \A v \in Vs(a) : phi[v] # 0
PairedAnswer(a, b, R(_, _), r) ==
  Unambiguous(a, b, R) => LET phi == Pairing(a, b, R) IN IF Total(a, phi) THEN Answer(a, b, phi, r) ELSE r[1] = NV0
\* the recorded pairing <<>> means that there is none
FoundPairing(a, b, R(_, _), s) ==
  IF Unambiguous(a, b, R) THEN LET phi == Pairing(a, b, R) IN IF Total(a, phi) THEN s = [v \in 1..Len(a.ve) |-> phi[v]] /\ Len(s) = Len(a.ve) ELSE s = <<0>>
  \* whatever is paired up, it is so one by one
  ELSE s = <<0>> \/ (/\ \A v \in Vs(a) : v \in 1..Len(s) /\ s[v] \in Vs(b) /\ R(v, s[v])
                    /\ \A v, x \in Vs(a) : v # x => s[v] # s[x])

CurvedVerdicts(e) == /\ CurvedAnswer(e.m, e.b, e.x, e.y, e.cv, e.cw, e.w.tc) /\ CurvedAnswer(e.b, e.m, e.y, e.x, e.cw, e.cv, e.w.tcr)
                     /\ TrivialPosAnswer(e.m, e.b, e.x, e.y, e.w.tp)
Verdicts(e) ==
  LET a == e.m  b == e.b  w == e.w
      T(v, x) == a.vp[v] = b.vp[x]
      P(v, x) == Near(e.x[v], e.y[x])
      Pr(x, v) == Near(e.x[v], e.y[x])
      Tr(x, v) == a.vp[v] = b.vp[x] IN
  /\ w.phi # <<>> => Answer(a, b, e.phi, w.phi) /\ PayloadAnswer(a, b, e.phi, w.phit)
  /\ PairedAnswer(a, b, T, w.tag) /\ PairedAnswer(b, a, Tr, w.tagr) /\ FoundPairing(a, b, T, w.found)
  /\ PairedAnswer(a, b, P, w.pos) /\ PairedAnswer(b, a, Pr, w.posr) /\ PairedAnswer(a, b, P, w.pos2)
  /\ TrivialAnswer(a, b, w.triv) /\ TrivialAnswer(b, a, w.trivr)
  /\ TrivialPosAnswer(a, b, e.x, e.y, w.trivp) /\ TrivialPosAnswer(b, a, e.y, e.x, w.trivpr)
=============================================================================
