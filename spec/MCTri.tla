------------------------------- MODULE MCTri -------------------------------
(* Every triangle mesh that can be put together within the bounds; also: one round of subdivision, built by the
   half-edge operations of the model, is again a consistent triangle mesh of the promised size. *)
EXTENDS MCHalfEdge
Tri3 == /\ Room(6, 3, 1)
        /\ LET ids == NE(6)  xs == NV(3)  fs == [j \in 1..3 |-> ids[2*j-1]]  bs == [j \in 1..3 |-> ids[2*j]] IN
           Do(DPoly(<<0, 0, 0>>, xs, fs, bs, NF(1)[1]), <<"polygon", 3>>)
\* a new triangle on a boundary edge: a dangling vertex at its start, then closed
Ear == \E i \in Bnd(m) : /\ Room(4, 1, 1)
       /\ LET o == m.nx[i]  e == NE(4)  n == Build(m, DVia(m, i, o, 0, 0, 0, NV(1)[1], e[1], e[2])) IN
          \* cycle ..., i, e1, e2, o, ...: the triangle i, e1, new
          /\ m.pv[i] # o
          /\ m' = Build(n, DClose(n, e[1], m.pv[i], 0, 0, 0, 0, NF(1)[1], e[3], e[4]))
          /\ h' = h \o <<<<"via", i, o>>, <<"close", e[1], m.pv[i], 0>>>>
Corner == \E i \in Bnd(m) : LET o == m.pv[m.pv[i]] IN
          /\ Room(2, 0, 1) /\ Len(Cyc(m, i)) > 3 /\ PreIns(m, i, o)
          /\ LET e == NE(2) IN Do(DClose(m, i, o, 0, 0, 0, 0, NF(1)[1], e[1], e[2]), <<"close", i, o, 0>>)
Hole3 == \E e \in Bnd(m) : /\ Room(0, 0, 1) /\ Len(Cyc(m, e)) = 3 /\ \A x \in Range(Cyc(m, e)) : x >= e
         /\ Do(DHole(m, e, 0, 0, NF(1)[1]), <<"hole", e, 0>>)
TriNext == Tri3 \/ Ear \/ Corner \/ Hole3 \/ (h # <<>> /\ AddV)
TriSpec == Init /\ [][TriNext]_vars
Triangles == \A f \in Fs(m) : Len(Cyc(m, m.fe[f])) = 3
EmitOps == h = <<>> \/ \A o \in {<<"loopsub">>, <<"subfreq", 1>>, <<"subfreq", 2>>, <<"subfreq", 4>>, <<"slerp">>} : PrintT(<<"SCRIPT", ToJson(Append(h, o))>>)
=============================================================================
