------------------------------- MODULE Render -------------------------------
(* What the Bevy extension hands to the renderer, and the meshes it takes over from the other backend.
   A render mesh has attributes (lists of values by name), indices of some kind or none, a topology and a usage. *)
EXTENDS Convert
Kinds == {"u16", "u32"}
\* the renderer knows no narrower ids than 16 bits
KindFor(bytes) == IF bytes = 4 THEN "u32" ELSE "u16"
Attributes == {"Vertex_Position", "Vertex_Normal"}
\* replaces whatever r showed by the triangulation t
Show(r, t, bytes) == [r EXCEPT !.attr = [n \in Attributes |-> IF n = "Vertex_Position" THEN t.X ELSE t.N], !.kind = KindFor(bytes), !.is = t.is]
\* what a renderer needs
Drawable(r) == /\ \A n, o \in DOMAIN r.attr : Len(r.attr[n]) = Len(r.attr[o])
               /\ \A n \in DOMAIN r.attr : \A i \in 1..Len(r.is) : r.is[i] < Len(r.attr[n])
               /\ Len(r.is) % 3 = 0
--------------------------------------------------------------------------
(* Taken over: the same mesh up to new ids, every vertex with all it carries. *)
Carries(a, x, y, sv) == \A v \in Vs(a) : y[sv[v]] = x[v]
TakenByOrder(a, b, x, y) == LET sv == RankOf(Vs(a)) IN TakesTo(a, b, sv, RankOf(Es(a)), RankOf(Fs(a))) /\ Carries(a, x, y, sv)
TakenByValue(a, b, x, y) ==
  /\ \A v \in Vs(a) : \E w \in Vs(b) : y[w] = x[v]
  /\ LET sv == [v \in Vs(a) |-> CHOOSE w \in Vs(b) : y[w] = x[v]] IN
     /\ IsoVia(a, b, sv)
     /\ LET se == [e \in Es(a) |-> EdgeFromTo(b, sv[a.og[e]], sv[Tgt(a, e)])]
            sf == [f \in Fs(a) |-> b.fc[se[a.fe[f]]]] IN TakesTo(a, b, sv, se, sf)
Taken(a, b, x, y) == Valid(b) /\ SameSize(a, b)
  /\ (IF Vs(b) = 1..Cardinality(Vs(b)) /\ Es(b) = 1..Cardinality(Es(b)) /\ Fs(b) = 1..Cardinality(Fs(b)) /\ TakenByOrder(a, b, x, y) THEN TRUE
      ELSE Plain(a) /\ Plain(b) /\ TakenByValue(a, b, x, y))
=============================================================================
