-------------------------------- MODULE Text --------------------------------
(* Text in a font: a pen moves over the glyphs and leaves the contours of each one behind.
   A font is a sequence of glyphs (glyph g of a text is font[g + 1]; 0 is the glyph of unknown characters) with an
   advance and contours; a contour is a sequence of <<x, y, c>>: a corner and the control points of the curve to the
   next one. Kerning is a set or sequence of <<g, h, k>>. *)
EXTENDS Arith, TLC
Kern(K, g, h) == LET S == {k \in K : k[1] = g /\ k[2] = h} IN IF S = {} THEN 0 ELSE (CHOOSE k \in S : TRUE)[3]
--------------------------------------------------------------------------
(* The pen: its position, the last glyph (-1: none yet) and what has been drawn: sequences of contours *)
Start == [x |-> 0, last |-> -1, out |-> <<>>]
ShiftC(c, d) == [i \in 1..Len(c) |-> IF i % 2 = 1 THEN c[i] + d ELSE c[i]]
Shift(out, d) == [j \in 1..Len(out) |-> [i \in 1..Len(out[j]) |-> <<out[j][i][1] + d, out[j][i][2], ShiftC(out[j][i][3], d)>>]]
Draw(F, K, s, g) == LET x == s.x + (IF s.last = -1 THEN 0 ELSE Kern(K, s.last, g)) IN
  [x |-> x + F[g + 1].adv, last |-> g, out |-> s.out \o Shift(F[g + 1].out, x)]
RECURSIVE WriteR(_, _, _, _, _)
WriteR(F, K, T, i, s) == IF i > Len(T) THEN s ELSE WriteR(F, K, T, i + 1, TLCEval(Draw(F, K, s, T[i])))
Write(F, K, T) == WriteR(F, K, T, 1, Start)
=============================================================================
