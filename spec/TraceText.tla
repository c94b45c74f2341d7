------------------------------ MODULE TraceText ------------------------------
(* Recorded layouts against Text: every contour is a face of its own, where the pen left it. *)
EXTENDS HalfEdge, TraceCommon
X == INSTANCE Text
L(b, s) == IF b THEN {} ELSE {s}
Close(x, y) == x - y <= 2 /\ y - x <= 2
AllOf(e) == LET K == Range(e.kern) IN
            LET RECURSIVE go(_) go(i) == IF i = 0 THEN <<>> ELSE go(i - 1) \o X!Write(e.font, K, e.texts[i]).out IN go(Len(e.texts))
\* positions are given in units of 1/100
SameAt(p, x, y) == Close(p[1], 100 * x) /\ Close(p[2], 100 * y)
SameCurve(c, k) == Len(c) = Len(k) /\ \A i \in 1..Len(k) : Close(c[i], 100 * k[i])
Turned(c) == IF Len(c) = 4 THEN <<c[3], c[4], c[1], c[2]>> ELSE c
\* half-edge d of the mesh runs from corner i of contour c to the next one and has its curve (or its twin has it, turned round)
Step(r, c, i, d) == LET m == r.m  p == c[i]  q == c[(i % Len(c)) + 1] IN
  /\ SameAt(m.pos[m.og[d]], p[1], p[2]) /\ SameAt(m.pos[Tgt(m, d)], q[1], q[2])
  /\ \/ SameCurve(m.cu[d], p[3]) /\ m.cu[m.tw[d]] = <<>>
     \/ m.cu[d] = <<>> /\ SameCurve(Turned(m.cu[m.tw[d]]), p[3])
\* the cycle of half-edge d is contour c, beginning at corner i
RECURSIVE Follows(_, _, _, _, _)
Follows(r, c, i, d, n) == n = 0 \/ (Step(r, c, i, d) /\ Follows(r, c, (i % Len(c)) + 1, r.m.nx[d], n - 1))
IsContour(r, c, d) == Len(Cyc(r.m, d)) = Len(c) /\ \E i \in 1..Len(c) : Follows(r, c, i, d, Len(c))
RECURSIVE Total(_, _)
Total(C, i) == IF i = 0 THEN 0 ELSE Len(C[i]) + Total(C, i - 1)
Bad(e) ==
  IF e.st # "ok" THEN {"C26:" \o e.st}
  ELSE IF ~Refs(e.r.m) THEN {"C26:refs"}
  ELSE LET r == e.r  m == r.m  C == AllOf(e)
           FF == {<<f, m.fe[f]>> : f \in Fs(m)}
           \* how often something that looks like contour j was drawn, and how often it should have been
           Times(j) == Cardinality({x \in FF : IsContour(r, C[j], x[2])})
           Should(j) == Cardinality({k \in 1..Len(C) : LET c == C[k] IN
              Len(c) = Len(C[j]) /\ \E s \in 0..(Len(c) - 1) : \A i \in 1..Len(c) : c[i] = C[j][((i + s - 1) % Len(c)) + 1]}) IN
       L(Valid(m), "C26:valid")
       \cup L(Cardinality(Fs(m)) = Len(C), "C26:faces")
       \cup L(Cardinality(Vs(m)) = Total(C, Len(C)) /\ Cardinality(Es(m)) = 2 * Total(C, Len(C)), "C26:size")
       \cup L(\A j \in 1..Len(C) : Times(j) = Should(j), "C26:contours")
       \cup L(\A g \in 1..Len(e.font) : Close(r.adv[g], 100 * e.font[g].adv), "C26:advance")
Inv == Report(Bad(Ev))
Judged == PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
