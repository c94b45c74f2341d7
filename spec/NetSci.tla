------------------------------- MODULE NetSci -------------------------------
(* The network matrices of a mesh, defined on its undirected graph. Rows and columns are the vertices in id order. *)
EXTENDS HalfEdge
\* the ids are 1..n without gaps, as the matrices require
Dense(m) == Vs(m) = 1..Cardinality(Vs(m))
\* the mesh has at most one edge between two vertices and no edge from a vertex to itself
Simple(m) == \A e, f \in Es(m) : (m.og[e] = m.og[f] /\ Tgt(m, e) = Tgt(m, f)) => e = f
NoLoops(m) == \A e \in Es(m) : m.og[e] # Tgt(m, e)
Nv(m) == Cardinality(Vs(m))
Matrix(n, f(_, _)) == [i \in 1..n |-> [j \in 1..n |-> f(i, j)]]
DegreeOf(m, v) == Cardinality(Out(m, v))
Adjacency(m) == Matrix(Nv(m), LAMBDA i, j : IF \E e \in Es(m) : m.og[e] = i /\ Tgt(m, e) = j THEN 1 ELSE 0)
DegreeM(m) == Matrix(Nv(m), LAMBDA i, j : IF i = j THEN DegreeOf(m, i) ELSE 0)
LaplacianM(m) == LET A == Adjacency(m) IN Matrix(Nv(m), LAMBDA i, j : (IF i = j THEN DegreeOf(m, i) ELSE 0) - A[i][j])
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))

\* what the definitions must satisfy (checked on the model)
Handshake(m) == LET A == Adjacency(m)  n == Nv(m) IN
  /\ \A i, j \in 1..n : A[i][j] = A[j][i]
  /\ \A i \in 1..n : A[i][i] = 0 /\ Sum(A[i]) = DegreeOf(m, i)
  /\ Sum([i \in 1..n |-> Sum(A[i])]) = Cardinality(Es(m))
\* the indicator of every component is in the kernel of the Laplacian, and only unions of components are
Kernel(m) == LET L == LaplacianM(m)  n == Nv(m) IN
  \A S \in SUBSET (1..n) :
     (\A i \in 1..n : Sum([j \in 1..n |-> IF j \in S THEN L[i][j] ELSE 0]) = 0)
       <=> (\A v \in S : Comp(m, v) \subseteq S)

\* weights w are given in units of 1/Unit
Unit == 16
Sq(x) == x * x
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
\* w = Unit * |p - q| up to rounding
IsDist(w, p, q) == w >= 0 /\ Sq(w + 1) >= Sq(Unit) * D2(p, q) /\ (w <= 1 \/ Sq(w - 1) <= Sq(Unit) * D2(p, q))
Weighted(m, x, W) == LET A == Adjacency(m)  n == Nv(m) IN
  /\ Len(W) = n
  /\ \A i \in 1..n : Len(W[i]) = n /\ \A j \in 1..n : IF A[i][j] = 1 THEN IsDist(W[i][j], x[i], x[j]) ELSE W[i][j] = 0
\* the distance-weighted Laplacian has the plain degrees on its diagonal
WeightedLaplacian(m, x, W) == LET A == Adjacency(m)  n == Nv(m) IN
  /\ Len(W) = n
  /\ \A i \in 1..n : Len(W[i]) = n /\ \A j \in 1..n :
       IF i = j THEN W[i][j] = Unit * DegreeOf(m, i)
       ELSE IF A[i][j] = 1 THEN IsDist(-W[i][j], x[i], x[j]) ELSE W[i][j] = 0

Matrices(m, w) ==
  /\ w.adj = Adjacency(m) /\ w.degm = DegreeM(m) /\ w.lap = LaplacianM(m)
  /\ w.degs = [i \in 1..Nv(m) |-> <<i, DegreeOf(m, i)>>]
  /\ Weighted(m, w.x, w.adje) /\ WeightedLaplacian(m, w.x, w.lape)
=============================================================================
