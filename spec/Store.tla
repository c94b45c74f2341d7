------------------------------- MODULE Store -------------------------------
(* The id-addressed element store. State: the value of every live id, the slots that exist, and the slots that are
   reserved (allocated but not filled yet), oldest first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [val |-> [x \in {} |-> 0], cap |-> 0, res |-> <<>>]
Live(s) == DOMAIN s.val
Rng(q) == {q[i] : i \in 1..Len(q)}
FreeIds(s) == (1..s.cap) \ (Live(s) \cup Rng(s.res))
\* ids a new element may receive: a deleted one, or the next one when there is none
Fresh(s) == IF FreeIds(s) # {} THEN FreeIds(s) ELSE {s.cap + 1}
Grow(s, i) == IF i > s.cap THEN i ELSE s.cap
With(s, i, x) == [s EXCEPT !.val = (i :> x) @@ @, !.cap = Grow(s, i)]
Push(s, i, x) == With(s, i, x)
Alloc(s, i) == [s EXCEPT !.res = Append(@, i), !.cap = Grow(s, i)]
Fill(s, x) == [With(s, Head(s.res), x) EXCEPT !.res = Tail(@)]
Del(s, i) == [s EXCEPT !.val = [j \in Live(s) \ {i} |-> s.val[j]]]
Put(s, i, x) == [s EXCEPT !.val[i] = x]
Touch(s) == [s EXCEPT !.val = [j \in Live(s) |-> s.val[j] + 100]]

\* the live ids in order
RECURSIVE SortedR(_, _, _)
SortedR(S, n, acc) == IF S = {} THEN acc ELSE IF n \in S THEN SortedR(S \ {n}, n + 1, Append(acc, n)) ELSE SortedR(S, n + 1, acc)
Sorted(S) == SortedR(S, 1, <<>>)
Consistent(s) == /\ Live(s) \subseteq 1..s.cap /\ Rng(s.res) \subseteq 1..s.cap /\ Live(s) \cap Rng(s.res) = {}
                 /\ Cardinality(Rng(s.res)) = Len(s.res)
=============================================================================
