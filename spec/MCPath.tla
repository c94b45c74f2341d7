------------------------------- MODULE MCPath -------------------------------
(* A pen drawing into all small prepared meshes, one path after the other. *)
EXTENDS MCHalfEdge, Path
CONSTANTS Paths
VARIABLES b, n, dr
\* n: paths begun; dr: half-edges drawn by the current path, in order
pvars == <<m, h, b, n, dr>>
PView == <<m, b, n, dr>>
Zero(k) == [x \in 1..k |-> 0]
Ids(k, o) == [j \in 1..k |-> 2 * j - o]
Ring(k) == Build(EmptyMesh, DPath(Zero(k), [j \in 1..k |-> j], Ids(k, 1), Ids(k, 0)))
Disk(k) == Build(EmptyMesh, DPoly(Zero(k), [j \in 1..k |-> j], Ids(k, 1), Ids(k, 0), 1))
Line(k) == Build(EmptyMesh, DPath(Zero(k), [j \in 1..k |-> j], Ids(k - 1, 1), Ids(k - 1, 0)))
Prepared == { <<EmptyMesh, <<>>>>, <<Build(EmptyMesh, DAddV(0, 1)), <<<<"addv">>>>>>, <<Ring(3), <<<<"loop", 3>>>>>>,
              <<Disk(3), <<<<"polygon", 3>>>>>>, <<Line(3), <<<<"path", 3>>>>>> }
PInit == \E p \in Prepared : m = p[1] /\ h = p[2] /\ b = NoPen /\ n = 0 /\ dr = <<>>
Idle == b.cv = 0
Pen(d, op, c, x) == Do(d, op) /\ b' = c /\ dr' = x /\ n' = n
Begin(d, op, c) == Idle /\ n < Paths /\ Do(d, op) /\ b' = c /\ dr' = <<>> /\ n' = n + 1
StartNew == Room(0, 1, 0) /\ Begin(DAddV(0, NV(1)[1]), <<"start">>, At(NV(1)[1]))
StartAt == \E v \in Vs(m) : m.ve[v] = 0 /\ Begin(NoDelta, <<"startat", v>>, At(v))
StartEdge == \E e \in Es(m) : Begin(NoDelta, <<"startedge", e>>, AtEdge(m, e))
LineTo == \E w \in Vs(m) : /\ Room(2, 0, 0) /\ PreLine(m, b, w)
   /\ LET e == NE(2) IN Pen(DLine(m, b, w, 0, 0, e[1], e[2]), <<"lineto", w>>, Drawn(b, w, e[1], e[2]), Append(dr, e[1]))
LineNew == /\ Room(2, 1, 0)
   /\ LET e == NE(2)  w == NV(1)[1] IN
      /\ PreLine(With(m, w), b, w)
      /\ Pen(DLineNew(m, b, 0, w, 0, 0, e[1], e[2]), <<"line">>, Drawn(b, w, e[1], e[2]), Append(dr, e[1]))
Fill == /\ Room(2, 0, 1) /\ ~Idle /\ PreFill(m, b)
   /\ LET e == NE(2) IN Pen(DFill(m, b, 0, 0, NF(1)[1], e[1], e[2]), <<"fill">>, Filled(m, b, e[1], e[2]),
                            IF ~Empty(b) /\ IsOpen(m, b) THEN Append(dr, e[1]) ELSE dr)
Leave == ~Idle /\ n < Paths /\ Pen(NoDelta, <<"leave">>, NoPen, <<>>)
PNext == StartNew \/ StartAt \/ StartEdge \/ LineTo \/ LineNew \/ Fill \/ Leave
PSpec == PInit /\ [][PNext]_pvars
--------------------------------------------------------------------------
\* the pen knows where it is
Knows == ~Idle =>
  /\ {b.sv, b.cv} \subseteq Vs(m)
  /\ (b.ce = <<>>) = (b.se = <<>>)
  /\ b.ce # <<>> => Tgt(m, b.ce[1]) = b.cv /\ (dr # <<>> => m.tw[b.ce[1]] = b.ce[2])
  /\ b.se # <<>> => Tgt(m, b.se[1]) = b.sv
  /\ b.face => b.closed
  /\ b.closed /\ dr # <<>> /\ ~b.face => b.cv = b.sv
\* what was drawn is one walk from the start to the pen
Walk == dr # <<>> => /\ \A i \in 1..(Len(dr) - 1) : Tgt(m, dr[i]) = m.og[dr[i + 1]]
                     /\ m.og[dr[1]] = b.sv /\ Tgt(m, dr[Len(dr)]) = b.cv
\* a filled path has a face at its start; if only new or loose vertices were joined, the face is bounded by exactly the path
Filling == b.face /\ b.se # <<>> =>
  /\ m.fc[b.se[1]] # 0
  /\ (b.cv = b.sv /\ dr # <<>> /\ \A e \in Range(dr) : Cardinality(Out(m, m.og[e])) = 2) =>
       Range(Cyc(m, b.se[1])) = {m.tw[e] : e \in Range(dr)}
\* only a closed path gets a face, and drawing never takes one away
Faces == [][Fs(m) \subseteq Fs(m') /\ (Fs(m') # Fs(m) => b'.face)]_pvars
=============================================================================
