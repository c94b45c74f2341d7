------------------------------ MODULE MCStore ------------------------------
EXTENDS Store, Json
CONSTANTS Ops, Cap
VARIABLES s, h
View == <<[i \in Live(s) |-> 0], s.cap, s.res, Len(h)>>
Rank(i) == Cardinality({j \in Live(s) : j <= i})
Do(t, o) == s' = t /\ h' = Append(h, o)
Init == s = Empty /\ h = <<>>
Next == /\ Len(h) < Ops
        /\ LET x == Len(h) + 1 IN
           \/ \E i \in Fresh(s) : Grow(s, i) <= Cap /\ Do(Push(s, i, x), <<"push", x>>)
           \/ \E i \in Fresh(s) : Grow(s, i) <= Cap /\ Do(Alloc(s, i), <<"alloc">>)
           \/ s.res # <<>> /\ Do(Fill(s, x), <<"set", x>>)
           \/ \E i \in Live(s) : Do(Del(s, i), <<"del", Rank(i)>>)
           \/ \E i \in Live(s) : Do(Put(s, i, x), <<"put", Rank(i), x>>)
           \/ s.cap > 0 /\ Do(Empty, <<"clear">>)
Spec == Init /\ [][Next]_<<s, h>>
TypeOK == Consistent(s)
\* no live element ever loses its id or value except by its own deletion, overwriting or clearing
Stable == [][\A i \in Live(s) : i \in Live(s') \/ h'[Len(h')][1] \in {"del", "clear"}]_<<s, h>>
Emit == PrintT(<<"SCRIPT", ToJson(h')>>)
=============================================================================
