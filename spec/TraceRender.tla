---------------------------- MODULE TraceRender ----------------------------
(* Recorded render meshes and conversions of the Bevy extension against Render. *)
EXTENDS Render, TraceCommon
L(b, s) == IF b THEN {} ELSE {s}
SetOf(s) == {s[i] : i \in 1..Len(s)}
BadShown(e, r) ==
  LET t == [X |-> e.X, N |-> e.N, is |-> e.is]
      w == Show([attr |-> <<>>, kind |-> "none", is |-> <<>>], t, e.bytes) IN
  L(SetOf(r.names) = DOMAIN w.attr /\ Len(r.names) = Cardinality(DOMAIN w.attr), "C27:render:attributes")
  \cup L(r.kind = w.kind, "C27:render:kind") \cup L(r.is = w.is, "C27:render:indices")
  \cup L(r.X = w.attr["Vertex_Position"], "C27:render:positions") \cup L(r.N = w.attr["Vertex_Normal"], "C27:render:normals")
  \cup L(r.topo = "TriangleList" /\ r.usage = e.usage, "C27:render:usage")
Bad(e) == IF e.st # "ok" THEN {"C27:" \o e.op \o ":" \o e.st}
  ELSE CASE e.op = "show" -> BadShown(e, e.r) \cup BadShown(e, e.r2) \cup L(Drawable([attr |-> [X |-> e.X, N |-> e.N], is |-> e.is]), "C27:render:drawable")
         [] e.op = "taken" -> L(Taken(e.m, e.b, e.x, e.y), "C27:taken") \cup L(e.same, "C27:taken:original")
Inv == Report(Bad(Ev))
Judged == PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
