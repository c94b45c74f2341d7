---------------------------- MODULE MCHalfEdge ----------------------------
(* Exhaustive exploration of HalfEdge within small bounds. Every reachable mesh is checked for Valid (and more),
   and every transition is printed as a script that the harness replays on the real code. *)
EXTENDS HalfEdge, Json, TLCExt
CONSTANTS MaxE, MaxV, MaxF, Rich
VARIABLES m, h
vars == <<m, h>>
View == m

MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the n lowest ids not in use
RECURSIVE FreeR(_, _, _, _)
FreeR(S, n, i, acc) == IF n = 0 THEN acc
                       ELSE IF i \in S THEN FreeR(S, n, i + 1, acc) ELSE FreeR(S, n - 1, i + 1, Append(acc, i))
Free(S, n) == FreeR(S, n, 1, <<>>)

Build(x, d) ==
  LET E == (Es(x) \ d.delE) \cup d.newE  V == (Vs(x) \ d.delV) \cup d.newV  F == (Fs(x) \ d.delF) \cup d.newF
      b(S, g, u) == [i \in 1..MaxOf(S) |-> IF i \notin S THEN Dead ELSE IF i \in DOMAIN u THEN u[i] ELSE g[i]]
      og == b(E, x.og, d.og)  fc == b(E, x.fc, d.fc) IN
  [nx |-> b(E, x.nx, d.nx), pv |-> b(E, x.pv, d.pv), tw |-> b(E, x.tw, d.tw), og |-> og, fc |-> fc, ep |-> b(E, x.ep, d.ep),
   vp |-> b(V, x.vp, d.vp), fp |-> b(F, x.fp, d.fp), fcu |-> b(F, x.fcu, d.fcu),
   ve |-> [v \in 1..MaxOf(V) |-> IF v \notin V THEN Dead
             ELSE IF v \in Vs(x) /\ x.ve[v] \in E /\ og[x.ve[v]] = v THEN x.ve[v]
             ELSE IF \E e \in E : og[e] = v THEN MinOf({e \in E : og[e] = v}) ELSE 0],
   fe |-> [f \in 1..MaxOf(F) |-> IF f \notin F THEN Dead
             ELSE IF f \in Fs(x) /\ f \notin d.newF /\ x.fe[f] \in E /\ fc[x.fe[f]] = f THEN x.fe[f]
             ELSE MinOf({e \in E : fc[e] = f})]]

Fits(d) == /\ Cardinality(Es(m)) + Cardinality(d.newE) <= MaxE
           /\ Cardinality(Vs(m)) + Cardinality(d.newV) <= MaxV
           /\ Cardinality(Fs(m)) + Cardinality(d.newF) <= MaxF
Room(e, v, f) == /\ Cardinality(Es(m)) + e <= MaxE /\ Cardinality(Vs(m)) + v <= MaxV /\ Cardinality(Fs(m)) + f <= MaxF
Do(d, op) == /\ m' = Build(m, d)
             /\ h' = Append(h, op)
NE(n) == Free(Es(m), n)
NV(n) == Free(Vs(m), n)
NF(n) == Free(Fs(m), n)

AddV == Room(0, 1, 0) /\ Do(DAddV(0, NV(1)[1]), <<"addv">>)
Iso == /\ Room(2, 2, 0)
       /\ LET v == NV(2)  e == NE(2) IN Do(DIso(v[1], v[2], e[1], e[2], 0, 0, 0, 0), <<"iso">>)
Via == \E i \in Bnd(m) : /\ Room(2, 1, 0)
       /\ LET e == NE(2) IN Do(DVia(m, i, m.nx[i], 0, 0, 0, NV(1)[1], e[1], e[2]), <<"via", i, m.nx[i]>>)
ViaV == \E v \in Vs(m) : /\ Room(2, 1, 0) /\ PreViaV(m, v)
       /\ LET e == NE(2)  c == CornerOf(m, v) IN
          Do(DVia(m, m.pv[c], c, 0, 0, 0, NV(1)[1], e[1], e[2]), <<"viav", v>>)
Btw == \E v, w \in Vs(m) : /\ Room(2, 0, 0) /\ PreBtw(m, v, w)
       /\ LET e == NE(2) IN Do(DBtw(m, v, w, 0, 0, e[1], e[2]), <<"btw", v, w>>)
Ins == \E i \in Bnd(m) : \E o \in Range(Cyc(m, i)) : /\ Room(2, 0, 0) /\ PreIns(m, i, o)
       /\ LET e == NE(2) IN Do(DIns(m, i, o, 0, 0, e[1], e[2]), <<"ins", i, o>>)
Close == \E i \in Bnd(m) : \E o \in Range(Cyc(m, i)) : /\ Room(2, 0, 1) /\ PreIns(m, i, o)
       /\ LET e == NE(2) IN Do(DClose(m, i, o, 0, 0, 0, 0, NF(1)[1], e[1], e[2]), <<"close", i, o, 0>>)
CloseV == \E p, v, w \in Vs(m) : /\ Room(2, 0, 1) /\ PreCloseV(m, p, v, w)
       /\ LET e == NE(2)  i == CHOOSE x \in InEdges(m, p, v) : TRUE  o == CHOOSE x \in CloseVTo(m, i, w) : TRUE IN
          Do(DClose(m, i, o, 1, 0, 0, 0, NF(1)[1], e[1], e[2]), <<"closev", p, v, w, 1>>)
Hole == \E e \in Bnd(m) : /\ Room(0, 0, 1) /\ Do(DHole(m, e, 0, 0, NF(1)[1]), <<"hole", e, 0>>)
RmF == \E f \in Fs(m) : Do(DRmF(m, f), <<"rmfe", m.fe[f]>>)
Ive == \E e \in Es(m), k \in 1..2 : /\ Room(2 * k, k, 0)
       /\ LET ids == NE(2 * k)  xs == NV(k)  as == [j \in 1..k |-> ids[2*j-1]]  bs == [j \in 1..k |-> ids[2*j]] IN
          Do(DIve(m, e, [x \in 1..(3*k) |-> 0], xs, as, bs), <<"ive", e, k>>)
\* the two halves of a safe subdivision, as one step
SubFix == \E e \in Es(m) : /\ Room(2, 1, 0)
       /\ LET ids == NE(2)  v == NV(1)[1]  t == m.tw[e]  x == Build(m, DSub(m, e, 0, 0, v, ids[1])) IN
          /\ m' = Build(x, DFix(x, t, 0, ids[2]))
          /\ h' = h \o <<<<"sub", e>>, <<"fix", t>>>>
FlipE == \E e \in Es(m) : Do(FlipOf(m, {e, m.tw[e]}), <<"flipe", e>>)
Flip == Do(FlipOf(m, Es(m)), <<"flip">>)
Poly == \E k \in 3..4, o \in {"path", "loop", "polygon", "dihedron"} :
        LET n == IF o = "path" THEN k - 1 ELSE k
            ids == NE(2 * n)  xs == NV(k)
            fs == [j \in 1..n |-> ids[2*j-1]]  bs == [j \in 1..n |-> ids[2*j]]  t == [x \in 1..k |-> 0]
            f == NF(2) IN
        /\ Room(2 * n, k, IF o = "polygon" THEN 1 ELSE IF o = "dihedron" THEN 2 ELSE 0)
        /\ Do(IF o \in {"path", "loop"} THEN DPath(t, xs, fs, bs) ELSE IF o = "polygon" THEN DPoly(t, xs, fs, bs, f[1])
              ELSE DDihedron(t, xs, fs, bs, f[1], f[2]), <<o, k>>)

Init == m = EmptyMesh /\ h = <<>>
Basic == AddV \/ Iso \/ Via \/ ViaV \/ Btw \/ Ins \/ Close \/ CloseV \/ Hole \/ RmF \/ Poly
Next == Basic \/ Ive \/ SubFix \/ (Rich /\ (FlipE \/ Flip))
Spec == Init /\ [][Next]_vars

TypeOK == Valid(m)
\* properties of the operations as such
NothingVanishes == [][Es(m) \subseteq Es(m') /\ Vs(m) \subseteq Vs(m') /\ \A e \in Es(m) : m'.tw[e] # Dead]_vars
\* handles only appear when an edge joins two different boundary cycles of one component
Genus == \A C \in Components(m) :
   LET E == {e \in Es(m) : m.og[e] \in C} IN
   E = {} \/ LET x == Cardinality(C) - Cardinality(E) \div 2 + Cardinality({Range(Cyc(m, e)) : e \in E}) IN x <= 2 /\ x % 2 = 0
\* every transition as a script
Emit == PrintT(<<"SCRIPT", ToJson(h')>>)
=============================================================================
