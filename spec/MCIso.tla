------------------------------- MODULE MCIso -------------------------------
(* The isomorphism relations on every mesh reachable within the bounds: reflexive, closed under renaming,
   automorphisms form a group, and one changed face, payload or link is noticed. *)
EXTENDS MCHalfEdge
IS == INSTANCE Iso
Perms(S) == {p \in [S -> S] : \A i, j \in S : p[i] = p[j] => i = j}
Rot(S) == [i \in S |-> IF \E j \in S : j > i THEN CHOOSE j \in S : j > i /\ \A k \in S : k > i => j <= k ELSE CHOOSE j \in S : \A k \in S : j <= k]
Id(S) == [i \in S |-> i]
Autos == {p \in Perms(Vs(m)) : IS!IsoVia(m, m, p)}
Relations ==
  LET V == Vs(m)  E == Es(m)  F == Fs(m)  x == IS!Renamed(m, Rot(V), Rot(E), Rot(F)) IN
  /\ IS!Plain(m)
  /\ IS!IsoVia(m, m, Id(V)) /\ IS!Trivial(m, m)
  /\ Valid(x) /\ IS!IsoVia(m, x, Rot(V)) /\ IS!PayloadIsoVia(m, x, Rot(V))
  /\ IS!Trivial(m, IS!Renamed(m, Id(V), Id(E), Id(F)))
  /\ \A p, q \in Autos : [i \in V |-> p[q[i]]] \in Autos /\ [i \in V |-> CHOOSE j \in V : p[j] = i] \in Autos
\* no step of the machine leads to a trivially isomorphic mesh, except exchanging an edge with its twin
Noticed == [][m' # m => ~IS!Trivial(m, m')]_vars
=============================================================================
