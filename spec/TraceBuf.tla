------------------------------ MODULE TraceBuf ------------------------------
EXTENDS TriBuffer, TraceCommon
L(b, s) == IF b THEN {} ELSE {s}
Close(x, y, d) == Abs(x - y) <= d
Pre(e) == [buf |-> e.b, start |-> e.s]
Post(e) == [buf |-> e.b2, start |-> e.s2]
\* what the reading functions say about a buffer
BadReads(s, r, X) == LET T == Tris(s) IN
  L(r.len = Count(s) /\ r.next = Len(s.buf), "C23:len")
  \cup L(r.idx = Own(s) /\ r.tri = T, "C23:get")
  \cup L(Len(r.areas) = Len(T) /\ \A i \in 1..Len(T) : r.areas[i] = TriArea2(X, T[i]), "C23:triarea")
  \cup L(r.area = TotalArea2(X, T), "C23:area")
  \cup L(Close(r.weight, SumSides(X, T, 1), 3 * Len(T) + 1), "C23:weight")
BadOp(e) == LET s == Pre(e)  t == Post(e) IN
  BadReads(t, e.r, e.X) \cup
  CASE e.op = "open" -> L(t = Open(e.b), "C23:open")
    [] e.op = "tri" -> L(t = Insert(s, e.a), "C23:insert")
    [] e.op = "local" -> L(t = InsertLocal(s, e.a, e.ids), "C23:local")
    [] e.op = "map" -> L(t = Rename(s, e.f), "C23:map")
    [] e.op = "flip" -> LET a == e.a[1]  b == e.a[2]  i == e.a[3]  j == e.a[4] IN
         IF Flippable(s, a, b, i, j) THEN L(e.ok, "C23:refused") \cup L(Flipped(s, t, a, b, i, j), "C23:flip")
         ELSE L(~e.ok, "C23:accepted") \cup L(t = s, "C23:untouched")
BadVerify(e) == LET T == Tris(Pre(e))  r == e.r IN
  L(r.indices = OkIndices(e.ids, T), "C23:indices")
  \cup L(r.used = OkUsed(e.ids, T), "C23:used")
  \cup (IF Used(T) \subseteq Ids(e.ids)
        THEN L(r.turns = OkTurns(e.X, T), "C23:turns") \cup L(r.crossing = OkCrossing(e.X, T), "C23:crossing") \cup L(r.area = OkArea(e.X, e.ids, T), "C23:verifyarea")
             \cup L(r.full = OkAll(e.X, e.ids, T), "C23:full")
        ELSE L(~r.full, "C23:full"))
Judge(e) == Good(Pre(e)) /\ (e.op = "flip" => PreFlip(Pre(e), e.a[1], e.a[2], e.a[3], e.a[4]))
Bad(e) == IF ~Judge(e) THEN {} ELSE IF e.st # "ok" THEN {"C23:" \o e.op \o ":" \o e.st}
          ELSE IF e.op = "verify" THEN BadVerify(e) ELSE BadOp(e)
Inv == Report(Bad(Ev))
Judged == Judge(Ev) => PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
