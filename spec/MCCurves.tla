------------------------------ MODULE MCCurves ------------------------------
(* Inserting vertices into an edge refines the mesh exactly if that edge is curved; no other step does. *)
EXTENDS MCHalfEdge
C == INSTANCE Curves
LastOp == h'[Len(h')]
Bent(e) == [x \in 1..Len(m.nx) |-> IF x = e THEN << <<0, 0>> >> ELSE <<>>]
Flat == [x \in 1..Len(m.nx) |-> <<>>]
Refinement == [][ IF LastOp[1] = "ive" THEN C!Refines(m, Bent(LastOp[2]), m') /\ ~C!Refines(m, Flat, m')
                  ELSE (m = m' \/ ~C!Refines(m, Flat, m')) ]_vars
\* properties of the curve points themselves, on a small grid
Pts == {<<x, y>> : x, y \in {-40, 0, 64}}
ASSUME \A p, q, c \in Pts : C!At(p, <<c>>, q, 0, 64) = p /\ C!At(p, <<c>>, q, 64, 64) = q
                            /\ \A j \in {0, 7, 32, 50, 64} : C!Close2(C!At(p, <<c>>, q, j, 64), C!At(q, <<c>>, p, 64 - j, 64), 1)
ASSUME \A p, q, c, d \in Pts : \A j \in {0, 16, 32, 64} : C!Close2(C!At(p, <<c, d>>, q, j, 64), C!At(q, <<d, c>>, p, 64 - j, 64), 1)
\* a straight chain follows a straight curve; a chain that misses the bulge does not
ASSUME C!Follows(C!Sampled(<<0, 0>>, << >>, <<640, 0>>, 64), << <<0, 0>>, <<640, 0>> >>, 0)
ASSUME C!Follows(C!Sampled(<<0, 0>>, << <<320, 640>> >>, <<640, 0>>, 64), << <<0, 0>>, <<320, 320>>, <<640, 0>> >>, 100)
ASSUME ~C!Follows(C!Sampled(<<0, 0>>, << <<320, 640>> >>, <<640, 0>>, 64), << <<0, 0>>, <<640, 0>> >>, 100)
ASSUME ~C!Follows(C!Sampled(<<0, 0>>, << <<200, 640>>, <<440, -640>> >>, <<640, 0>>, 64), << <<0, 0>>, <<640, 0>> >>, 100)
\* the points must come in order
ASSUME ~C!Follows(C!Sampled(<<0, 0>>, << >>, <<640, 0>>, 64), << <<0, 0>>, <<400, 0>>, <<200, 0>>, <<640, 0>> >>, 30)
ASSUME C!Isqrt(2147395600) = 46340 /\ \A n \in 0..300 : LET r == C!Isqrt(n) IN r * r <= n /\ (r + 1) * (r + 1) > n
=============================================================================
