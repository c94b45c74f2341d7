-------------------------------- MODULE Sums --------------------------------
(* Sums of numbers of very different size in floating point, and what their stable summation has to give. *)
EXTENDS Arith
--------------------------------------------------------------------------
(* A binary floating point format with p bits: integers rounded to the nearest, ties to even *)
RECURSIVE Ulp(_, _, _)
\* the least power of two u (from u upwards) such that x needs no more than p bits in units of u
Ulp(x, p, u) == IF Abs(x) < u * 2 ^ p THEN u ELSE Ulp(x, p, 2 * u)
Rnd(x, p) == LET u == Ulp(x, p, 1)  q == Abs(x) \div u  r == Abs(x) % u
                 y == IF 2 * r > u \/ (2 * r = u /\ q % 2 = 1) THEN q + 1 ELSE q IN
             IF x < 0 THEN -(y * u) ELSE y * u
\* Neumaier's algorithm: the running sum and what has been lost so far
NeuStart == <<0, 0>>
Neu(st, v, p) == LET t == Rnd(st[1] + v, p)
                     e == IF Abs(st[1]) >= Abs(v) THEN Rnd(Rnd(st[1] - t, p) + v, p) ELSE Rnd(Rnd(v - t, p) + st[1], p) IN
                 <<t, Rnd(st[2] + e, p)>>
NeuSum(st, p) == Rnd(st[1] + st[2], p)
\* Kahan's algorithm: the running sum and what the last step added too much
Kah(st, v, p) == LET y == Rnd(v - st[2], p)  t == Rnd(st[1] + y, p) IN <<t, Rnd(Rnd(t - st[1], p) - y, p)>>
--------------------------------------------------------------------------
(* Inputs are pairs <<m, k>> standing for m * B ^ k with k in {0, 1}, where B is twice the number of integers the
   format can count. Exact sums are pairs: the sum at level 0 and at level 1. *)
RECURSIVE Level(_, _, _, _)
Level(S, k, i, s) == IF i > Len(S) THEN s ELSE Level(S, k, i + 1, s + (IF S[i][2] = k THEN S[i][1] ELSE 0))
RECURSIVE Mass(_, _, _)
\* the sum of the absolute values at level 1
Mass(S, i, s) == IF i > Len(S) THEN s ELSE Mass(S, i + 1, s + (IF S[i][2] = 1 THEN Abs(S[i][1]) ELSE 0))
Exact(S) == <<Level(S, 0, 1, 0), Level(S, 1, 1, 0)>>
\* r (level 0, level 1) is the sum up to one rounding of the result, however large the summands were
Compensated(S, r) == LET x == Exact(S) IN r[2] = x[2] /\ Abs(r[1] - x[1]) <= 4 * Abs(x[2])
\* r is the sum up to two roundings of the largest summands, however many small ones there are
Stable(S, r) == LET x == Exact(S) IN r[2] = x[2] /\ Abs(r[1] - x[1]) <= 4 * Mass(S, 1, 0)
=============================================================================
