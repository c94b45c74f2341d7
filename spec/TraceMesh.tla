----------------------------- MODULE TraceMesh -----------------------------
(* Recorded observations of single meshes against MeshQueries. *)
EXTENDS MeshQueries, TraceCommon
Id(o) == CASE o = "walk" -> "C04" [] o = "query" -> "C05" [] o = "check" -> "C06"
Within(e) == e.op = "check" \/ Valid(e.m)
Right(e) ==
  /\ e.st = "ok"
  /\ CASE e.op = "walk" -> Walks(e.m, e.w)
       [] e.op = "query" -> Answers(e.m, e.w)
       [] e.op = "check" -> Refs(e.m) /\ e.w.ok = Passes(e.m)
Inv == Report(IF Within(Ev) /\ ~Right(Ev) THEN {Id(Ev.op)} ELSE {})
Judged == ~Within(Ev) \/ PrintT(<<"JUDGED", IF Ev.op = "check" /\ Ev.st = "ok" THEN IF Ev.w.ok THEN "check accepts" ELSE "check rejects" ELSE Ev.op>>)
=============================================================================
