------------------------------ MODULE Convert ------------------------------
(* A mesh and its conversion to another mesh type: the same mesh up to new ids. *)
EXTENDS Iso
Rank(S, x) == Cardinality({y \in S : y <= x})
Nth(S, k) == CHOOSE x \in S : Rank(S, x) = k
\* renaming by sv, se, sf takes a to b, links and curved flags alike
TakesTo(a, b, sv, se, sf) ==
  /\ {sv[v] : v \in Vs(a)} = Vs(b) /\ {se[e] : e \in Es(a)} = Es(b) /\ {sf[f] : f \in Fs(a)} = Fs(b)
  /\ \A e \in Es(a) : LET x == se[e] IN
       /\ b.nx[x] = se[a.nx[e]] /\ b.pv[x] = se[a.pv[e]] /\ b.tw[x] = se[a.tw[e]] /\ b.og[x] = sv[a.og[e]]
       /\ b.fc[x] = (IF a.fc[e] = 0 THEN 0 ELSE sf[a.fc[e]])
  /\ \A f \in Fs(a) : b.fcu[sf[f]] = a.fcu[f]
Placed(a, x, y, sv, d) == \A v \in Vs(a) : y[sv[v]] = [i \in 1..d |-> IF i <= 2 THEN x[v][i] ELSE 0]
\* renamed in the order of the ids
RankOf(S) == [x \in S |-> Rank(S, x)]
ByOrder(a, b, x, y, d) == LET sv == RankOf(Vs(a)) IN
  SameSize(a, b) /\ Vs(b) = 1..Cardinality(Vs(b)) /\ Es(b) = 1..Cardinality(Es(b)) /\ Fs(b) = 1..Cardinality(Fs(b))
  /\ TakesTo(a, b, sv, RankOf(Es(a)), RankOf(Fs(a))) /\ Placed(a, x, y, sv, d)
\* or identified by the positions of the vertices, when these are distinct
Distinct(a, x) == \A v, w \in Vs(a) : x[v] = x[w] => v = w
At2(y, w, x, v) == y[w][1] = x[v][1] /\ y[w][2] = x[v][2]
ByPosition(a, b, x, y, d) ==
  /\ SameSize(a, b) /\ Plain(b) /\ \A v \in Vs(a) : \E w \in Vs(b) : At2(y, w, x, v)
  /\ LET sv == [v \in Vs(a) |-> CHOOSE w \in Vs(b) : At2(y, w, x, v)] IN
     /\ Placed(a, x, y, sv, d) /\ IsoVia(a, b, sv)
     /\ LET se == [e \in Es(a) |-> EdgeFromTo(b, sv[a.og[e]], sv[Tgt(a, e)])]
            sf == [f \in Fs(a) |-> b.fc[se[a.fe[f]]]] IN TakesTo(a, b, sv, se, sf)
Converts(e) ==
  /\ Valid(e.b) /\ SameSize(e.m, e.b)
  /\ ByOrder(e.m, e.b, e.x, e.y, e.d)
     \/ IF Plain(e.m) /\ Distinct(e.m, e.x) THEN ByPosition(e.m, e.b, e.x, e.y, e.d) ELSE TRUE
=============================================================================
