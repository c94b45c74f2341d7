------------------------------- MODULE MCSums -------------------------------
(* Both algorithms on all short sequences in a toy format of P bits. *)
EXTENDS Sums, TLC, Json
CONSTANTS P, Most, Digits
VARIABLES S, n, k
B == 2 ^ (P + 1)
Value(x) == IF x[2] = 0 THEN x[1] ELSE x[1] * B
Init == S = <<>> /\ n = NeuStart /\ k = NeuStart
Next == /\ Len(S) < Most
        /\ \E m \in Digits \cup {-d : d \in Digits}, l \in {0, 1} : LET x == <<m, l>> IN
             S' = Append(S, x) /\ n' = Neu(n, Value(x), P) /\ k' = Kah(k, Value(x), P)
Spec == Init /\ [][Next]_<<S, n, k>>
Total == LET x == Exact(S) IN x[1] + x[2] * B
Format == \A x \in {n[1], n[2], k[1], k[2]} : Rnd(x, P) = x
\* Neumaier's sum and what it has lost together are the exact sum: nothing but the last addition is ever rounded
Lossless == n[1] + n[2] = Total
Neumaier == LET r == NeuSum(n, P)  x == Exact(S) IN 2 * Abs(r - Total) <= Ulp(Total, P, 1) /\ (x[2] = 0 => r = Total)
\* Kahan's error is bounded by the largest summands (4 = 2 * B / 2 ^ P), not by how many there are
Kahan == Abs(k[1] - Total) <= 4 * Mass(S, 1, 0)
Emit == Len(S') = Most => PrintT(<<"SCRIPT", ToJson(S')>>)
=============================================================================
