---------------------------- MODULE TraceCurves ----------------------------
(* Recorded flattenings against Curves. *)
EXTENDS Curves, TraceCommon
Within(e) == Valid(e.m)
Inv == Report(IF Within(Ev) /\ ~(Ev.st = "ok" /\ FlattensRight(Ev)) THEN {"C16"} ELSE {})
Judged == ~Within(Ev) \/ PrintT(<<"JUDGED", IF Ev.st = "ok" /\ Ev.w.was THEN "curved" ELSE "straight">>)
=============================================================================
