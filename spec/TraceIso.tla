------------------------------ MODULE TraceIso ------------------------------
(* Recorded isomorphism tests against Iso. *)
EXTENDS Iso, TraceCommon
Within(e) == Plain(e.m) /\ Plain(e.b)
Good(e) == e.st = "ok" /\ IF e.op = "isoc" THEN CurvedVerdicts(e) ELSE (e.w.phi # <<>> => IsBij(e.m, e.b, e.phi)) /\ Verdicts(e)
Inv == Report(IF Within(Ev) /\ ~Good(Ev) THEN {"C18"} ELSE {})
Kind(r) == IF r = <<>> THEN "none" ELSE ToString(r[1])
Judged == ~Within(Ev) \/ PrintT(<<"JUDGED", IF Ev.st # "ok" THEN Ev.st ELSE IF Ev.op = "isoc" THEN "curved " \o Kind(Ev.w.tc)
                                           ELSE "phi " \o Kind(Ev.w.phi) \o " pos " \o Kind(Ev.w.pos) \o " triv " \o Kind(Ev.w.triv)>>)
=============================================================================
