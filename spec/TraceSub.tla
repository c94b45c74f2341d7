------------------------------ MODULE TraceSub ------------------------------
EXTENDS Subdivide, TraceCommon
Rounds(b) == CHOOSE k \in 0..10 : Pow(2, k) = b
Ops == {"loopsub", "subfreq", "slerp"}
In(e) == e.op \in Ops /\ LET m == Trace[e.p].m IN
  /\ Valid(m) /\ Triangular(m)
  /\ CASE e.op = "loopsub" -> Apart(m)
       [] e.op = "subfreq" -> Generic(m, Rounds(e.a[1]))
       [] e.op = "slerp" -> e.a[5] = 1 /\ Cardinality({{m.og[x], Tgt(m, x)} : x \in Es(m)}) = NumEdges(m)
Right(m, e) == e.st = "ok" /\ Refs(e.m) /\
  CASE e.op = "loopsub" -> LinRight(m, e.m)
    [] e.op = "subfreq" -> Subdivided(m, Rounds(e.a[1]), e.m)
    [] e.op = "slerp" -> SlerpRight(m, e.m, <<e.a[1], e.a[2], e.a[3]>>, e.a[4])
\* a description (b, c): every edge becomes b + c edges along its length, every triangle b * b + b * c + c * c triangles
Described(e) == LET b == e.t[1]  c == e.t[2] IN
  /\ e.a = <<b, c, b + c, b * b + b * c + c * c>>
  \* along the sides (the descriptions that are supported): the square of the frequency, as Iter has it for powers of 2
  /\ c = 0 => e.a[4] = e.a[3] * e.a[3]
Rejected(e) == IF e.op = "descr" THEN ~Described(e) ELSE In(e) /\ ~Right(Trace[e.p].m, e)
Inv == Report(IF Rejected(Ev) THEN {"C09"} ELSE {})
Judged == ~(Ev.op = "descr" \/ In(Ev)) \/ PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
