----------------------------- MODULE MCConvert -----------------------------
(* On every reachable mesh: packing the ids is a conversion, by order and by position; a conversion of a mesh is
   one of no other mesh reached from it in a step that changes its shape. *)
EXTENDS MCHalfEdge
K == INSTANCE Convert
Pos(x) == [v \in 1..Len(x.vp) |-> <<v, v * v>>]
Pack(x) ==
  LET V == Vs(x)  E == Es(x)  F == Fs(x)
      s(S) == K!RankOf(S)
      g(S, f(_)) == [i \in 1..Cardinality(S) |-> f(K!Nth(S, i))]
      z(S, i) == IF i = 0 THEN 0 ELSE K!Rank(S, i) IN
  [nx |-> g(E, LAMBDA i : z(E, x.nx[i])), pv |-> g(E, LAMBDA i : z(E, x.pv[i])), tw |-> g(E, LAMBDA i : z(E, x.tw[i])),
   og |-> g(E, LAMBDA i : z(V, x.og[i])), fc |-> g(E, LAMBDA i : z(F, x.fc[i])), ep |-> g(E, LAMBDA i : x.ep[i]),
   ve |-> g(V, LAMBDA i : z(E, x.ve[i])), vp |-> g(V, LAMBDA i : x.vp[i]),
   fe |-> g(F, LAMBDA i : z(E, x.fe[i])), fp |-> g(F, LAMBDA i : x.fp[i]), fcu |-> g(F, LAMBDA i : x.fcu[i])]
PackPos(x) == [i \in 1..Cardinality(Vs(x)) |-> Pos(x)[K!Nth(Vs(x), i)] \o <<0>>]
Packs == LET p == Pack(m) IN
  /\ Valid(p) /\ K!ByOrder(m, p, Pos(m), PackPos(m), 3) /\ K!ByPosition(m, p, Pos(m), PackPos(m), 3)
Shape(x) == <<Vs(x), Es(x), Fs(x), x.nx, x.tw, x.og, [e \in Es(x) |-> x.fc[e] = 0]>>
Tells == [][Shape(m) # Shape(m') => ~K!Converts([m |-> m', b |-> Pack(m), x |-> Pos(m'), y |-> PackPos(m), d |-> 3])]_vars
=============================================================================
