---------------------------- MODULE TraceConvert ----------------------------
(* Recorded conversions against Convert. *)
EXTENDS Convert, TraceCommon
Within(e) == Valid(e.m)
Inv == Report(IF Within(Ev) /\ ~(Ev.st = "ok" /\ Converts(Ev)) THEN {"C15"} ELSE {})
Judged == ~Within(Ev) \/ PrintT(<<"JUDGED", "to " \o ToString(Ev.d) \o "d">>)
=============================================================================
