------------------------------ MODULE MCLoft ------------------------------
(* Every mesh reachable in HalfEdge within the bounds, with every lofting operation that is admissible on it.
   Also checks on the model that strips are well formed: they cover the promised half-edges exactly once. *)
EXTENDS MCHalfEdge, Loft
CONSTANT Full     \* every start edge of a boundary cycle, or two of them
Starts == {x \in Bnd(m) : Simple(m, x) /\ (Full \/ \A y \in Range(Cyc(m, x)) : y >= x \/ y >= m.pv[x])}
Ops ==
  UNION {LET n == L(m, e) IN
         {<<"ltb", e, s, k>> : s \in 0..1, k \in 1..n} \cup {<<"lt", e, s, k>> : s \in 0..1, k \in 1..n}
         \cup {<<"ltbc", e, n>>, <<"ltc", e, n>>, <<"ext", e>>, <<"extt", e>>, <<"extt2", e>>, <<"apex", e>>}
         \cup {<<"lpb", e, 2, 2, k>> : k \in 1..n} \cup {<<"lp", e, 2, 2, k>> : k \in 1..n}
         \cup {<<"lpb", e, y[1], y[2], y[3]>> : y \in {z \in (2..3) \X (2..4) \X (1..(2*n)) :
                 PolyOk(n, z[1], z[2], z[3])}}
         : e \in Starts}
  \cup {<<"extfe", m.fe[f]>> : f \in Fs(m)} \cup {<<"exttfe", m.fe[f]>> : f \in Fs(m)} \cup {<<"extb">>}
\* half-edges of a strip: every one at most once, and the covered ones are exactly the old half-edges among them
Half(S) == [i \in 1..Len(S.F) |-> {<<S.F[i][j], S.F[i][(j % Len(S.F[i])) + 1]>> : j \in 1..Len(S.F[i])}]
Proper(S, xs) ==
  LET H == Half(S)  U == UNION Range(H) IN
  /\ SumOver([i \in 1..Len(H) |-> Cardinality(H[i])], 1..Len(H)) = Cardinality(U)
  /\ {y \in U : y[1] \notin Range(xs) /\ y[2] \notin Range(xs)} = {<<m.og[e], Tgt(m, e)>> : e \in S.Cov}
New(k) == [i \in 1..k |-> 100 + i]
Strips == \A e \in {x \in Bnd(m) : Simple(m, x)} : LET n == L(m, e)  xs == New(n) IN
  /\ \A k \in 1..n, s \in BOOLEAN : Proper(TriBack(m, e, s, New(k)), New(k)) /\ Proper(TriFw(m, e, s, New(k)), New(k))
  /\ Proper(TriBackClosed(m, e, xs), xs) /\ Proper(TriFwClosed(m, e, xs), xs)
  /\ \A k \in 1..n : Proper(QuadFw(m, e, New(k)), New(k)) /\ Proper(PolyBack(m, e, 2, 2, New(k)), New(k))
  /\ Proper(Extrude(m, e, xs), xs) /\ Proper(ExtrudeTri(m, e, xs), xs) /\ Proper(Apex(m, e, 101), <<101>>)
  \* an extrusion leaves nothing open: every new side is used in both directions
  /\ \A S \in {Extrude(m, e, xs), ExtrudeTri(m, e, xs), Apex(m, e, xs[1])} : LET U == UNION Range(Half(S)) IN
       \A y \in U : {y[1], y[2]} \cap Range(xs) # {} => <<y[2], y[1]>> \in U
EmitOps == \A o \in Ops : PrintT(<<"SCRIPT", ToJson(Append(h, o))>>)
=============================================================================
