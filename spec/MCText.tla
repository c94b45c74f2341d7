------------------------------- MODULE MCText -------------------------------
(* All short texts in a few small fonts. *)
EXTENDS Text, Sequences, Json
CONSTANTS Most
VARIABLES f, txt, pen
L0 == <<>>
Box(x, y, w, h) == << <<x, y, L0>>, <<x + w, y, L0>>, <<x + w, y + h, L0>>, <<x, y + h, L0>> >>
Drop(c1, c2) == << <<2, 0, c1>>, <<14, 0, L0>>, <<8, 12, c2>> >>
Glyphs(c1, c2) == << [adv |-> 10, out |-> <<Box(1, 0, 8, 8)>>],
                     [adv |-> 16, out |-> <<Drop(c1, c2)>>],
                     [adv |-> 7, out |-> <<>>],
                     [adv |-> 20, out |-> <<Box(1, 0, 16, 16), Box(5, 5, 4, 4)>>] >>
Fonts == << [font |-> Glyphs(<<8, -6>>, <<4, 4>>), kern |-> {}],
            [font |-> Glyphs(<<6, -6, 10, -6>>, <<6, 8, 4, 4>>), kern |-> {<<1, 3, 4>>, <<3, 1, 2>>, <<1, 1, 1>>, <<2, 0, 5>>}],
            [font |-> Glyphs(<<8, -6>>, L0), kern |-> {<<1, 3, -3>>, <<3, 0, -1>>, <<2, 2, -7>>, <<0, 1, 6>>}] >>
F == Fonts[f].font
K == Fonts[f].kern
Init == f \in 1..Len(Fonts) /\ txt = <<>> /\ pen = Start
Next == Len(txt) < Most /\ UNCHANGED f /\ \E g \in 0..(Len(F) - 1) : txt' = Append(txt, g) /\ pen' = Draw(F, K, pen, g)
Spec == Init /\ [][Next]_<<f, txt, pen>>
--------------------------------------------------------------------------
Sum == LET RECURSIVE go(_) go(i) == IF i > Len(txt) THEN 0 ELSE F[txt[i] + 1].adv + (IF i = 1 THEN 0 ELSE Kern(K, txt[i - 1], txt[i])) + go(i + 1) IN go(1)
Width == pen.x = Sum
\* a text is its first part and its second part, moved
Parts == pen = Write(F, K, txt) /\ \A i \in 1..(Len(txt) - 1) :
  LET a == Write(F, K, SubSeq(txt, 1, i))  b == Write(F, K, SubSeq(txt, i + 1, Len(txt))) IN
  pen.out = a.out \o Shift(b.out, a.x + Kern(K, txt[i], txt[i + 1]))
\* glyphs that keep to their advance do not touch each other, unless they are pulled together
Xs(out) == {p[1] : p \in UNION {{out[j][i] : i \in 1..Len(out[j])} : j \in 1..Len(out)}}
Apart == (\A k \in K : k[3] >= 0) => \A i \in 1..(Len(txt) - 1) :
  LET a == Write(F, K, SubSeq(txt, 1, i)) IN
  \A p \in Xs(a.out) : \A q \in Xs([j \in 1..(Len(pen.out) - Len(a.out)) |-> pen.out[j + Len(a.out)]]) : p < q
Emit == txt' # <<>> => PrintT(<<"SCRIPT", ToJson([font |-> Fonts[f].font, kern |-> Fonts[f].kern, text |-> txt'])>>)
=============================================================================
