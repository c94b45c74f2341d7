---------------------------- MODULE TraceStore ----------------------------
(* The store's state is reconstructed from each event's observation; pending reservations are carried in the
   event chain. *)
EXTENDS Store, TraceCommon
RECURSIVE After(_)
\* the state the specification says holds after event i
Step(s, e) ==
  LET a == e.a  r == e.r IN
  CASE e.op = "push" -> Push(s, r[1], a[1])
    [] e.op = "alloc" -> Alloc(s, r[1])
    [] e.op = "set" -> Fill(s, a[1])
    [] e.op = "del" -> Del(s, a[1])
    [] e.op = "put" -> Put(s, a[1], a[2])
    [] e.op = "touch" -> Touch(s)
    [] e.op = "clear" -> Empty
After(i) == IF Trace[i].op = "init" THEN Empty ELSE Step(After(Trace[i].p), Trace[i])
\* does the observation w describe state s?
Looks(s, w) ==
  LET ids == Sorted(Live(s)) IN
  /\ w.it = [j \in 1..Len(ids) |-> <<ids[j], s.val[ids[j]]>>] /\ w.im = w.it
  /\ w.has = ids /\ w.key = ids /\ w.get = [j \in 1..Len(ids) |-> s.val[ids[j]]]
  /\ w.cap = s.cap
  /\ s.res = <<>> => w.len = Cardinality(Live(s))
Bad(e) ==
  IF e.op = "init" THEN IF Looks(Empty, e.w) THEN {} ELSE {"C03"}
  ELSE IF e.st # "ok" THEN {"C03"}
  ELSE LET s == After(e.p) IN
       IF e.op \in {"push", "alloc"} /\ e.r[1] \notin Fresh(s) THEN {"C03"}
       ELSE IF e.op = "set" /\ e.r[1] # Head(s.res) THEN {"C03"}
       ELSE IF Looks(Step(s, e), e.w) THEN {} ELSE {"C03"}
Inv == Report(Bad(Ev))
Judged == Ev.op = "init" \/ PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
