----------------------------- MODULE TracePrim -----------------------------
EXTENDS Primitives, TraceCommon
SameOld(m, m1) ==
  /\ Es(m) \subseteq Es(m1) /\ Vs(m) \subseteq Vs(m1) /\ Fs(m) \subseteq Fs(m1)
  /\ \A e \in Es(m) : m1.nx[e] = m.nx[e] /\ m1.pv[e] = m.pv[e] /\ m1.tw[e] = m.tw[e] /\ m1.og[e] = m.og[e] /\ m1.fc[e] = m.fc[e] /\ m1.ep[e] = m.ep[e]
  /\ \A v \in Vs(m) : m1.vp[v] = m.vp[v] /\ m1.ve[v] = m.ve[v]
  /\ \A f \in Fs(m) : m1.fp[f] = m.fp[f] /\ m1.fcu[f] = m.fcu[f]
\* which side each face shows: the sign of Newell's vector times a corner, relative to the centre
Cr(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
Dt(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
RECURSIVE NewellR(_, _, _, _)
NewellR(c, x, i, acc) == IF i > Len(c) THEN acc
  ELSE LET k == Cr(x[c[i]], x[c[(i % Len(c)) + 1]]) IN NewellR(c, x, i + 1, <<acc[1] + k[1], acc[2] + k[2], acc[3] + k[3]>>)
Side(m, f) == LET c == Map(LAMBDA e : m.og[e], Cyc(m, m.fe[f])) IN Dt(NewellR(c, m.rel, 1, <<0, 0, 0>>), m.rel[c[1]])
\* corners of these are chosen by the caller, who also decides which way round they go
Given == {"polygon", "dihedron", "antiprism_iter", "pyramid", "frustum"}
Oriented(m1, F, o, a) ==
  CASE Flat(o) \/ o \in Given -> TRUE
    \* the base may be any simple polygon: the two copies of it look away from each other
    [] o \in {"prism", "antiprism"} -> Cardinality({f \in F : Len(Cyc(m1, m1.fe[f])) = a[1] /\ Side(m1, f) > 0}) >= 2
    [] OTHER -> \A f \in F : Side(m1, f) > 0
Right(e) ==
  /\ e.st = "ok" /\ Refs(e.m) /\ Valid(e.m)
  /\ LET m == Trace[e.p].m  m1 == e.m  E == Es(m1) \ Es(m)  V == Vs(m1) \ Vs(m)  F == Fs(m1) \ Fs(m) IN
     /\ SameOld(m, m1) /\ E # {}
     /\ \A x \in E : m1.nx[x] \in E /\ m1.tw[x] \in E /\ m1.og[x] \in V /\ (m1.fc[x] = 0 \/ m1.fc[x] \in F)
     /\ {m1.og[x] : x \in E} = V /\ {m1.fc[x] : x \in E} \ {0} = F
     /\ IsoTo(m1, E, Scheme(e.op, e.a))
     /\ Placed(m1, E, V, e.op, e.a, e.b, m1.fx)
     /\ Oriented(m1, F, e.op, e.a)
     /\ e.op = "regular_polygon" =>
           /\ AllSides(m1, m1.fx, E, e.c[1])
           \* twice the area: the triangles from the centre
           /\ LET x == m1.fx  b == CHOOSE x0 \in E : m1.fc[x0] # 0 IN
              Near(e.c[2] \div 1, SumOver([s \in {s \in E : m1.fc[s] # 0} |->
                     Ab((x[m1.og[s]][1] \div 4) * (x[Tgt(m1, s)][2] \div 4) - (x[m1.og[s]][2] \div 4) * (x[Tgt(m1, s)][1] \div 4))],
                     {s \in E : m1.fc[s] # 0}) \div 128, 40 + e.c[2] \div 50)
     /\ e.op = "icosahedron" => (\A v \in V : OnBall(m1.fx, v, e.c[1])) /\ Near(e.c[2], e.a[2], 1)
Inv == Report(IF Ev.op # "init" /\ ~Right(Ev) THEN {"C10"} ELSE {})
Judged == Ev.op = "init" \/ PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
