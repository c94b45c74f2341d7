------------------------------- MODULE MCNet -------------------------------
(* The matrices on every mesh reachable within the bounds. *)
EXTENDS MCHalfEdge
NS == INSTANCE NetSci
Graph == NS!Simple(m) /\ NS!NoLoops(m) /\ (NS!Dense(m) => NS!Handshake(m) /\ NS!Kernel(m))
=============================================================================
