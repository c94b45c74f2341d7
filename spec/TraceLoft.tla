----------------------------- MODULE TraceLoft -----------------------------
(* Recorded lofting histories against Loft. Positions are in eighths; extrusions shift by DZ along the third axis. *)
EXTENDS Loft, TraceCommon
DZ == 8000
TagV(m1, t) == IF \E v \in Vs(m1) : m1.vp[v] = t THEN CHOOSE v \in Vs(m1) : m1.vp[v] = t ELSE 0
Tagged(m1, t) == [i \in 1..Len(t) |-> TagV(m1, t[i])]
Up(p) == <<p[1], p[2], p[3] + DZ>>
Mid(p, q) == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2, (p[3] + q[3]) \div 2>>
At(m, m1, p) == IF \E v \in Vs(m1) \ Vs(m) : m1.pos[v] = p THEN CHOOSE v \in Vs(m1) \ Vs(m) : m1.pos[v] = p ELSE 0
\* new vertices of the extrusion from e, by position
ExtXs(m, e, m1) == [i \in 1..L(m, e) |-> At(m, m1, Up(m.pos[Bk(m, e, i - 1)]))]
TriXs(m, e, m1) == [i \in 1..L(m, e) |-> At(m, m1, Up(m.pos[Fw(m, e, i)]))]
Tri2Xs(m, e, m1) == [i \in 1..L(m, e) |-> At(m, m1, Up(Mid(m.pos[Fw(m, e, i - 1)], m.pos[Fw(m, e, i)])))]
PosDistinct(m, e, half) == LET P == {IF half THEN Mid(m.pos[Fw(m, e, i - 1)], m.pos[Fw(m, e, i)]) ELSE m.pos[Fw(m, e, i)] : i \in 1..L(m, e)} IN
                     Cardinality(P) = L(m, e)
\* the mesh without face f
Removed(m, f) == [m EXCEPT !.fc = [e \in 1..Len(m.fc) |-> IF m.fc[e] = f THEN 0 ELSE m.fc[e]],
                           !.fp[f] = Dead, !.fe[f] = Dead, !.fcu[f] = Dead]
Exts == {"ext", "extt", "extt2", "extf", "exttf"}
Holes(m) == {e \in Es(m) : m.fc[e] = 0}
\* boundary cycles, one representative each
HoleReps(m) == {e \in Holes(m) : \A x \in Range(Cyc(m, e)) : e <= x}
Pre(m, o, a, k) ==
  CASE o \in {"ltb", "lt"} -> Simple(m, a[1]) /\ k >= 1 /\ k <= L(m, a[1])
    [] o \in {"ltbc", "ltc"} -> Simple(m, a[1]) /\ k = L(m, a[1])
    [] o = "lpb" -> Simple(m, a[1]) /\ a[2] >= 2 /\ a[3] >= 2 /\ k >= 1
                    /\ PolyOk(L(m, a[1]), a[2], a[3], k)
    [] o = "lp" -> Simple(m, a[1]) /\ a[2] = 2 /\ a[3] = 2 /\ k >= 1 /\ k <= L(m, a[1])
    [] o \in {"ext", "extt"} -> Simple(m, a[1]) /\ PosDistinct(m, a[1], FALSE)
    [] o = "extt2" -> Simple(m, a[1]) /\ PosDistinct(m, a[1], TRUE)
    [] o \in {"extf", "exttf"} -> a[1] \in Fs(m) /\ LET n == Removed(m, a[1]) IN Simple(n, m.fe[a[1]]) /\ PosDistinct(n, m.fe[a[1]], FALSE)
    [] o = "apex" -> Simple(m, a[1])
    [] o = "extb" -> /\ \A e \in Holes(m) : Simple(m, e) /\ m.fc[m.tw[e]] # 0
                     /\ Cardinality({m.pos[m.og[e]] : e \in Holes(m)}) = Cardinality(Holes(m))
    [] OTHER -> FALSE
MinusF(m, S) == [m EXCEPT !.fp = [f \in 1..Len(m.fp) |-> IF f \in S THEN Dead ELSE m.fp[f]]]

RECURSIVE JoinStrips(_, _, _)
JoinStrips(m, R, m1) == IF R = {} THEN Strip(<<>>, {}, {}, <<>>)
  ELSE LET e == CHOOSE x \in R : TRUE  S == Extrude(m, e, ExtXs(m, e, m1))  T == JoinStrips(m, R \ {e}, m1) IN
       Strip(Cat2(S.F, T.F), S.Cov \cup T.Cov, {}, <<>>)
OldPos(m, m1) == \A v \in Vs(m) : m1.pos[v] = m.pos[v]
ThisStrip(m, o, a, xs) ==
  CASE o = "ltb" -> TriBack(m, a[1], a[2] = 1, xs)
    [] o = "lt" -> TriFw(m, a[1], a[2] = 1, xs)
    [] o = "ltbc" -> TriBackClosed(m, a[1], xs)
    [] o = "ltc" -> TriFwClosed(m, a[1], xs)
    [] o = "lpb" -> PolyBack(m, a[1], a[2], a[3], xs)
    [] o = "lp" -> QuadFw(m, a[1], xs)
    [] o \in {"ext", "extf"} -> Extrude(m, a[1], xs)
    [] o \in {"extt", "extt2", "exttf"} -> ExtrudeTri(m, a[1], xs)
    [] o = "apex" -> Apex(m, a[1], xs[1])
OneRight(m, o, a, t, r, m1) ==
  LET e == a[1]
      xs == IF o \in {"ext", "extf"} THEN ExtXs(m, e, m1) ELSE IF o \in {"extt", "exttf"} THEN TriXs(m, e, m1)
            ELSE IF o = "extt2" THEN Tri2Xs(m, e, m1) ELSE Tagged(m1, t)
      c == Range(Cyc(m, e)) IN
  /\ 0 \notin Range(xs) /\ Distinct(xs)
  /\ LET S == ThisStrip(m, o, a, xs) IN
     /\ Attached(m, S, Range(xs), c, m1) /\ OneHole(m, c, m1) /\ OldPos(m, m1)
     /\ IF o = "apex" THEN r = <<xs[1]>> ELSE EdgeIs(m1, r[1], S.ret)
AllRight(m, m1) ==
  LET S == JoinStrips(m, HoleReps(m), m1)
      X == {At(m, m1, Up(m.pos[m.og[e]])) : e \in Holes(m)} IN
  0 \notin X /\ Attached(m, S, X, Holes(m), m1) /\ OneHole(m, Holes(m), m1) /\ OldPos(m, m1)
Right(m, e) ==
  /\ e.st = "ok" /\ Refs(e.m)
  /\ IF e.op = "extb" THEN AllRight(m, e.m)
     ELSE IF e.op \in {"extf", "exttf"} THEN
       \* the removed face's id may be taken by a new face
       LET f == e.a[1] IN OneRight(Removed(m, f), e.op, <<m.fe[f]>>, e.t, e.r, e.m)
     ELSE OneRight(m, e.op, e.a, e.t, e.r, e.m)
Within(e) == e.op # "init" /\ LET m == Trace[e.p].m IN Valid(m) /\ Pre(m, e.op, e.a, Len(e.t))
Inv == Report(IF Within(Ev) /\ ~Right(Trace[Ev.p].m, Ev) THEN {"C08"} ELSE {})
Judged == ~Within(Ev) \/ PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
