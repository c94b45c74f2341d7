---------------------------- MODULE TraceCommon ----------------------------
(* Reading a trace recorded from the implementation. Every event carries the observed post-state and the index
   of the event whose post-state it started from (p), so the events are checked independently of each other, in
   parallel: state l of this machine stands for "event l was compared with the specification". *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Stride == 32
VARIABLE l
Init == l \in 1..(IF N < Stride THEN N ELSE Stride)
Next == l + Stride <= N /\ l' = l + Stride
Spec == Init /\ [][Next]_l
Ev == Trace[l]
\* prints the rejected event and goes on
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
=============================================================================
