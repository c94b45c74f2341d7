------------------------------ MODULE TraceNet ------------------------------
(* Recorded network matrices against NetSci. *)
EXTENDS NetSci, TraceCommon
Within(e) == Valid(e.m) /\ Dense(e.m) /\ Simple(e.m) /\ NoLoops(e.m)
Inv == Report(IF Within(Ev) /\ ~(Ev.st = "ok" /\ Matrices(Ev.m, Ev.w)) THEN {"C20"} ELSE {})
Judged == ~Within(Ev) \/ PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
