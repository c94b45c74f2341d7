------------------------------ MODULE MCRender ------------------------------
(* A render mesh that is set again and again while the shown mesh and whatever else hangs on it change. *)
EXTENDS Render, TLC, Json
CONSTANTS Most, Steps
VARIABLES r, t, n
Lists(k, b) == [i \in 1..k |-> 10 * b + i]
Triangulations == UNION {{[X |-> Lists(k, 1), N |-> Lists(k, 2), is |-> s] : s \in IF k = 0 THEN {<<>>} ELSE {<<>>, <<0, k - 1, 0>>, <<k - 1, 0, 0, 0, k - 1, k - 1>>}} : k \in 0..Most}
Names == Attributes \cup {"Vertex_Uv", "Vertex_Color"}
Blank == [attr |-> <<>>, kind |-> "none", is |-> <<>>, usage |-> 1]
\* anything may have been there before
Foreign == {[attr |-> [x \in S |-> Lists(k, 3)], kind |-> d, is |-> IF d = "none" THEN <<>> ELSE i, usage |-> u] :
              S \in SUBSET Names, k \in 0..Most, d \in Kinds \cup {"none"}, i \in {<<0, 1, 2, 3>>}, u \in {1, 2}}
Init == r \in Foreign \cup {Blank} /\ t = [X |-> <<>>, N |-> <<>>, is |-> <<>>] /\ n = 0
Set == \E x \in Triangulations, b \in {1, 2, 4} : r' = Show(r, x, b) /\ t' = x /\ n' = n + 1
Next == n < Steps /\ Set
Spec == Init /\ [][Next]_<<r, t, n>>
Shown == n > 0 => /\ Drawable(r) /\ DOMAIN r.attr = Attributes /\ r.kind \in Kinds
                  /\ r.attr["Vertex_Position"] = t.X /\ r.attr["Vertex_Normal"] = t.N /\ r.is = t.is
\* what was there before does not matter, and showing the same once more changes nothing
Forgets == n > 0 => \A b \in {2, 4} : LET a == Show(r, t, b) IN a = Show(a, t, b) /\ a = [Show(Blank, t, b) EXCEPT !.usage = r.usage]
Keeps == [][r'.usage = r.usage]_<<r, t, n>>
=============================================================================
