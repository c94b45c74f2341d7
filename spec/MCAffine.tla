------------------------------ MODULE MCAffine ------------------------------
(* All short compositions of some transforms of the plane. *)
EXTENDS Affine, TLC, Json
CONSTANTS Steps
VARIABLES a, h
Quarter == <<<<0, -1>>, <<1, 0>>>>
Shear == [m |-> <<<<1, 1>>, <<0, 1>>>>, t |-> <<0, 1>>]
Twist == [m |-> <<<<2, -1>>, <<1, 3>>>>, t |-> <<-1, 4>>]
Alphabet == {<<"translate", <<1, 2>>>>, <<"translate", <<-3, 0>>>>, <<"scale", <<2, 1>>>>, <<"scale", <<-1, 3>>>>,
             <<"rotate", Quarter>>, <<"rotate", Times(Quarter, Times(Quarter, Quarter))>>, <<"chain", Shear>>, <<"chain", Twist>>}
As(o) == CASE o[1] = "translate" -> FromTranslation(o[2]) [] o[1] = "scale" -> FromScale(o[2]) [] o[1] = "rotate" -> FromRotation(o[2]) [] OTHER -> o[2]
Init == a = Identity(2) /\ h = <<>>
Next == /\ Len(h) < Steps
        /\ \E o \in Alphabet : a' = Chain(a, As(o)) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_<<a, h>>
Points == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, -3>>}
RECURSIVE OneByOne(_, _, _)
OneByOne(g, x, i) == IF i > Len(g) THEN x ELSE OneByOne(g, Apply(As(g[i]), x), i + 1)
\* composing is applying one after the other
Composes == \A x \in Points : Apply(a, x) = OneByOne(h, x, 1)
\* directions are not moved by translations
Directions == \A x, y \in Points : ApplyVec(a, SubN(y, x)) = SubN(Apply(a, y), Apply(a, x))
Short == /\ WithTranslation(a, <<5, -2>>) = Chain(a, FromTranslation(<<5, -2>>))
         /\ WithScale(a, <<3, -2>>) = Chain(a, FromScale(<<3, -2>>))
Associative == \A o, p \in Alphabet : Chain(Chain(a, As(o)), As(p)) = Chain(a, Chain(As(o), As(p)))
Emit == PrintT(<<"SCRIPT", ToJson(h')>>)
=============================================================================
