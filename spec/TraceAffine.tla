---------------------------- MODULE TraceAffine ----------------------------
EXTENDS Affine, TraceCommon
G == INSTANCE Space
Abs(x) == IF x < 0 THEN -x ELSE x
L(b, s) == IF b THEN {} ELSE {s}
Close(x, y, d) == Abs(x - y) <= d
\* matrices in units of 1/1000
Milli(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> 1000 * m[i][j]]]
CloseTo(m, n, d) == Len(m) = Len(n) /\ \A i, j \in 1..Len(n) : Close(m[i][j], n[i][j], d)
Skew(w) == <<<<0, -w[3], w[2]>>, <<w[3], 0, -w[1]>>, <<-w[2], w[1], 0>>>>
\* the matrix m of a rotation: orthonormal columns that keep the orientation
Proper(m) == LET d == Len(m) IN
  /\ \A i, j \in 1..d : Close(DotN(Column(m, i), Column(m, j)), IF i = j THEN 1000000 ELSE 0, 4000)
  /\ d = 2 => m[1][1] * m[2][2] - m[1][2] * m[2][1] > 0
  /\ d = 3 => \A i \in 1..3 : Close(G!Cross3(Column(m, 1), Column(m, 2))[i], 1000 * m[i][3], 4000)
\* m turns the direction of a into that of b; both are scaled to comparable lengths
Turns(m, a, b) == LET la == G!Isqrt(DotN(a, a) * 10000)  lb == G!Isqrt(DotN(b, b) * 10000)  x == Linear(m, a) IN
  \A i \in 1..Len(a) : Close((x[i] * 100) \div la, (1000 * b[i] * 100) \div lb, 8)
BadMake(e) == LET r == e.r  a == e.a  d == e.d IN
  L(r.vm = r.m, "C19:applyvec") \cup
  CASE e.k = "identity" -> L(r.m = Milli(One(d)) /\ r.t = ZeroN(d), "C19:identity")
    [] e.k = "translation" -> L(r.m = Milli(One(d)) /\ r.t = a[1], "C19:translation")
    [] e.k = "scale" -> L(r.m = Milli(Diag(a[1])) /\ r.t = ZeroN(d), "C19:scale")
    [] e.k = "rotation" -> L(r.m = Milli(a) /\ r.t = ZeroN(d), "C19:rotation")
    [] e.k = "affine" -> L(r.m = Milli(SubSeq(a, 1, d)) /\ r.t = a[d + 1], "C19:affine")
    \* half a turn leaves the axis open
    [] e.k = "arc" -> L(r.t = ZeroN(d) /\ Proper(r.m) /\ Turns(r.m, a[1], a[2])
                        /\ (d = 3 => LET x == G!Cross3(a[1], a[2]) IN x = G!Zero3 \/ Turns(r.m, x, x)), "C19:arc")
    \* the angle with cosine p/q and sine s/q
    [] e.k = "angle" -> LET p == a[1][1]  s == a[1][2]  q == a[1][3] IN
                        L(r.t = ZeroN(2) /\ CloseTo([i \in 1..2 |-> [j \in 1..2 |-> q * r.m[i][j]]], Milli(<<<<p, -s>>, <<s, p>>>>), q), "C19:angle")
    \* the same angle around the axis w of length n
    [] e.k = "axis" -> LET w == a[1]  p == a[2][1]  s == a[2][2]  q == a[2][3]  n2 == DotN(w, w)  n == G!Isqrt(n2) IN
                       L(r.t = ZeroN(3) /\ CloseTo([i \in 1..3 |-> [j \in 1..3 |-> q * n2 * r.m[i][j]]],
                           Milli([i \in 1..3 |-> [j \in 1..3 |-> p * n2 * One(3)[i][j] + s * n * Skew(w)[i][j] + (q - p) * w[i] * w[j]]]), q * n2), "C19:axis")
BadStep(e) == LET r == [m |-> e.r.m, t |-> e.r.t] IN
  L(e.r.vm = e.r.m, "C19:applyvec") \cup
  CASE e.k = "translate" -> L(r = WithTranslation(e.A, e.v), "C19:withtranslation")
    [] e.k = "scale" -> L(r = WithScale(e.A, e.v), "C19:withscale")
    [] e.k = "chain" -> L(r = Chain(e.A, e.B), "C19:chain")
\* the map a mesh or payload is moved by
By(e) == CASE e.k = "transform" -> e.A [] e.k = "translate" -> FromTranslation(e.v)
           [] e.k = "scale" -> FromScale(e.v) [] e.k = "rotate" -> FromRotation(e.A.m)
BadMesh(e) == LET w == Moved(By(e), e.w) IN
  L(e.w2.X = w.X, "C19:mesh:" \o e.k) \cup L(e.w2.N = w.N, "C19:normals:" \o e.k) \cup L(e.w2.C = w.C, "C19:curves:" \o e.k)
  \cup L(e.same /\ e.w2.U = e.w.U, "C19:links") \cup L(e.cp => e.w0 = e.w, "C19:original") \cup L(~e.cp => e.w0 = e.w2, "C19:result")
Lerp4(a, b, t) == [i \in 1..Len(a) |-> 4 * a[i] + t * (b[i] - a[i])]
BadLerp(e) == L(Len(e.r) = Len(e.x) /\ (\A i \in 1..Len(e.x) : e.r[i] = Lerp4(e.x[i], e.y[i], e.q)) /\ e.same, "C19:lerp")
SwapYZ(x) == <<x[1], x[3], x[2]>>
BadYZ(e) == L(e.w2.X = [i \in 1..Len(e.w.X) |-> SwapYZ(e.w.X[i])], "C19:flipyz") \cup L(e.w2.U = e.w.U /\ e.w2.l = e.w.l, "C19:flipyz:links")
\* no entry differs by as much as e2/2
BadAbout(e) == L(e.r = (\A i \in 1..Dim(e.A) : /\ 2 * Abs(e.A.t[i] - e.B.t[i]) < e.e2
                                              /\ \A j \in 1..Dim(e.A) : 2 * Abs(e.A.m[i][j] - e.B.m[i][j]) < e.e2), "C19:about")
Bad(e) == IF e.st # "ok" THEN {"C19:" \o e.op \o ":" \o e.st}
  ELSE CASE e.op = "make" -> BadMake(e) [] e.op = "step" -> BadStep(e) [] e.op = "mesh" -> BadMesh(e) [] e.op = "lerp" -> BadLerp(e)
         [] e.op = "yz" -> BadYZ(e) [] e.op = "about" -> BadAbout(e)
Inv == Report(Bad(Ev))
Judged == PrintT(<<"JUDGED", Ev.op>>)
=============================================================================
