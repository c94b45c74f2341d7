----------------------------- MODULE TraceBuild -----------------------------
(* Recorded building histories against HalfEdge. *)
EXTENDS HalfEdge, TraceCommon

Pre(m, o, a) ==
  CASE o \in {"addv", "iso", "isod", "clear", "flip"} -> TRUE
    [] o \in {"via", "viad"} -> PreVia(m, a[1], a[2])
    [] o \in {"viav", "viavd"} -> PreViaV(m, a[1])
    [] o = "btw" -> PreBtw(m, a[1], a[2])
    [] o \in {"ins", "insnc", "close", "closed"} -> PreIns(m, a[1], a[2])
    [] o \in {"closev", "closevd"} -> PreCloseV(m, a[1], a[2], a[3])
    [] o \in {"hole", "holed"} -> PreHole(m, a[1])
    [] o = "rmf" -> PreRmF(m, a[1])
    [] o \in {"ive", "flipe"} -> a[1] \in Es(m)
    [] o = "path" -> a[1] >= 2
    [] o \in {"loop", "polygon", "dihedron"} -> a[1] >= 3
    [] o = "sub" -> a[1] \in Es(m)
    [] o = "fix" -> Repairable(m, a[1]) \/ (Links(m) /\ a[1] \in Es(m))
    [] OTHER -> FALSE

NewE(m, m1) == Es(m1) \ Es(m)
\* 0 where there is no such element (no delta contains element 0, so the event is rejected)
Pick(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE
TagV(m1, t) == Pick({v \in Vs(m1) : m1.vp[v] = t})
TagE(m1, t) == Pick({e \in Es(m1) : m1.ep[e] = t})
From(m, m1, v, w) == Pick({e \in NewE(m, m1) : m1.og[e] = v /\ m1.og[m1.tw[e]] = w})
FaceOf(m1, e) == IF e = 0 THEN 0 ELSE m1.fc[e]

\* the delta the specification demands for event e, with the new ids read off the results and the observed mesh
Delta(m, o, a, t, r, m1) ==
  CASE o = "addv" -> DAddV(t[1], r[1])
    [] o = "iso" -> LET e == From(m, m1, r[1], r[2]) f == From(m, m1, r[2], r[1]) IN
                    DIso(r[1], r[2], e, f, t[1], t[2], t[3], t[4])
    [] o = "isod" -> LET e == From(m, m1, r[1], r[2]) f == From(m, m1, r[2], r[1]) IN
                    DIso(r[1], r[2], e, f, t[1], 0, t[2], 0)
    [] o = "via" -> DVia(m, a[1], a[2], t[1], t[2], t[3], r[1], r[2], r[3])
    [] o = "viad" -> DVia(m, a[1], a[2], t[1], 0, 0, r[1], r[2], r[3])
    [] o = "viav" -> LET c == CornerOf(m, a[1]) IN DVia(m, m.pv[c], c, t[1], t[2], t[3], r[1], r[2], r[3])
    [] o = "viavd" -> LET c == CornerOf(m, a[1]) IN DVia(m, m.pv[c], c, t[1], 0, 0, r[1], r[2], r[3])
    [] o = "btw" -> DBtw(m, a[1], a[2], t[1], t[2], r[1], r[2])
    [] o \in {"ins", "insnc"} -> DIns(m, a[1], a[2], t[1], t[2], r[1], r[2])
    [] o = "close" -> DClose(m, a[1], a[2], a[3], t[1], t[2], t[3], r[1], r[2], r[3])
    [] o = "closed" -> DClose(m, a[1], a[2], a[3], 0, 0, 0, r[1], r[2], r[3])
    [] o = "closev" -> LET i == CHOOSE e \in InEdges(m, a[1], a[2]) : TRUE  x == CHOOSE x \in CloseVTo(m, i, a[3]) : TRUE IN
                       DClose(m, i, x, a[4], t[1], t[2], t[3], r[1], r[2], r[3])
    [] o = "closevd" -> LET i == CHOOSE e \in InEdges(m, a[1], a[2]) : TRUE  x == CHOOSE x \in CloseVTo(m, i, a[3]) : TRUE IN
                       DClose(m, i, x, a[4], 0, 0, 0, r[1], r[2], r[3])
    [] o = "hole" -> DHole(m, a[1], a[2], t[1], r[1])
    [] o = "holed" -> DHole(m, a[1], 0, 0, r[1])
    [] o = "rmf" -> DRmF(m, a[1])
    [] o = "ive" -> DIve(m, a[1], t, [j \in 1..a[2] |-> TagV(m1, t[3*j])], [j \in 1..a[2] |-> TagE(m1, t[3*j-2])],
                         [j \in 1..a[2] |-> TagE(m1, t[3*j-1])])
    [] o = "path" -> LET k == a[1]  xs == [j \in 1..k |-> TagV(m1, t[j])] IN
                     DPath(t, xs, [j \in 1..(k-1) |-> From(m, m1, xs[j], xs[j+1])],
                                  [j \in 1..(k-1) |-> From(m, m1, xs[j+1], xs[j])])
    [] o \in {"loop", "polygon", "dihedron"} ->
                     LET k == a[1]  xs == [j \in 1..k |-> TagV(m1, t[j])]
                         fs == [j \in 1..k |-> From(m, m1, xs[j], xs[(j % k) + 1])]
                         bs == [j \in 1..k |-> From(m, m1, xs[(j % k) + 1], xs[j])] IN
                     IF o = "loop" THEN DPath(t, xs, fs, bs)
                     ELSE IF o = "polygon" THEN DPoly(t, xs, fs, bs, FaceOf(m1, bs[1]))
                     ELSE DDihedron(t, xs, fs, bs, FaceOf(m1, bs[1]), FaceOf(m1, fs[1]))
    [] o = "sub" -> DSub(m, a[1], t[1], t[2], TagV(m1, t[1]), r[1])
    [] o = "fix" -> IF r[1] = 0 THEN NoDelta ELSE DFix(m, a[1], t[1], r[1])
    [] o = "flip" -> FlipOf(m, Es(m))
    [] o = "flipe" -> FlipOf(m, {a[1], m.tw[a[1]]})
    [] o = "clear" -> DClear(m)

\* results that are not ids of new elements
Results(m, o, a, t, r, m1) ==
  CASE o = "rmf" -> r = <<m.fp[a[1]]>>
    [] o = "ive" -> r = <<a[1]>>
    [] o = "path" -> LET k == a[1]  v1 == TagV(m1, t[1])  v2 == TagV(m1, t[2])  vl == TagV(m1, t[k]) vm == TagV(m1, t[k-1]) IN
                     r = <<From(m, m1, v2, v1), From(m, m1, vm, vl)>>
    [] o = "loop" -> r = <<From(m, m1, TagV(m1, t[2]), TagV(m1, t[1]))>>
    [] o \in {"polygon", "dihedron"} -> r = <<From(m, m1, TagV(m1, t[1]), TagV(m1, t[2]))>>
    [] o = "fix" -> (r[1] # 0) = Halved(m, a[1])
    [] OTHER -> TRUE

\* Is the state the event started from one the operation may be used on?
Start(m, o) == IF o = "fix" THEN Refs(m) ELSE Valid(m)

Flips == {"flip", "flipe"}
Bad(e) ==
  IF e.op = "init" THEN IF Valid(e.m) /\ Es(e.m) = {} /\ Vs(e.m) = {} /\ Fs(e.m) = {} THEN {} ELSE {"C01"}
  ELSE LET m == Trace[e.p].m IN
       IF ~Start(m, e.op) THEN {}
       ELSE IF ~Pre(m, e.op, e.a) THEN {}
       ELSE IF e.st # "ok" THEN IF e.op \in Flips THEN {"C07"} ELSE {"C01", "C02"}
       ELSE LET cons == IF e.op = "sub" THEN Refs(e.m) ELSE Valid(e.m) IN
            IF ~Refs(e.m) THEN IF e.op \in Flips THEN {"C07"} ELSE {"C01", "C02"}
            ELSE LET eff == Conforms(m, Delta(m, e.op, e.a, e.t, e.r, e.m), e.m) /\ Results(m, e.op, e.a, e.t, e.r, e.m) IN
                 IF e.op \in Flips THEN IF cons /\ eff THEN {} ELSE {"C07"}
                 ELSE (IF cons THEN {} ELSE {"C01"}) \cup (IF eff THEN {} ELSE {"C02"})
Inv == Report(Bad(Ev))
\* vacuity: how many events were actually inside the contract
Judged == ~(Ev.op # "init" /\ LET m == Trace[Ev.p].m IN Start(m, Ev.op) /\ Pre(m, Ev.op, Ev.a))
          \/ PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
