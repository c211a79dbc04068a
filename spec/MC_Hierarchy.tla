---------------------------- MODULE MC_Hierarchy ----------------------------
EXTENDS Hierarchy, Json
CONSTANTS MaxComps, MaxOps
VARIABLES st, h, nops
View == <<st, nops>>
Names == {<<"a">>, <<"a", "b">>, <<"b">>}
Pats == {<<"*">>, <<"a">>, <<"*", ".", "b">>, <<"a", ".", "*">>, <<"?">>, <<"a", "b", "*">>}
Init == st = Init0([n |-> 0]) /\ h = <<>> /\ nops = 0
Do(e) == st' = Step(st, e) /\ h' = Append(h, [do |-> e.op] @@ e)
Is == {0} \cup Comps(st)
Next == \/ \E n \in Names, p \in Is : (Len(st.c) < MaxComps \/ Child(st, p, n) # -1) /\ Do([op |-> "new", n |-> n, p |-> p])
                /\ nops' = IF Child(st, p, n) # -1 THEN nops + 1 ELSE nops
        \/ nops < MaxOps /\ nops' = nops + 1 /\ Len(st.c) > 0 /\
             (\/ \E c \in Is, b \in BOOLEAN, x \in Names, y \in Names \cup {<<>>} :
                    Do([op |-> "lookup", c |-> c, abs |-> b, path |-> IF y = <<>> THEN <<x>> ELSE <<x, y>>])
              \/ \E c \in Is, q \in Pats : Do([op |-> "all", c |-> c, pat |-> q])
              \/ \E q \in Pats : Do([op |-> "find", c |-> 0, pat |-> q])
              \/ \E c \in Is, q \in Pats : Do([op |-> "kids", c |-> c, pat |-> q]))
Bound == nops <= MaxOps
Emit == PrintT("@@GEN " \o ToJson(h'))
UniqueNames == \A i, j \in Comps(st) : Full(st, i) = Full(st, j) => i = j
RECURSIVE PathOf(_)
PathOf(i) == IF i = 0 THEN <<>> ELSE PathOf(st.c[i].p) \o <<st.c[i].n>>
FoundByName == \A i \in Comps(st) : Walk(st, 0, PathOf(i)) = i /\ Found(st, [c |-> 0, pat |-> Full(st, i)]) = {i}
DepthIsDots == \A i \in Comps(st) : Depth(st, i) = 1 + Len(SelectSeq(Full(st, i), LAMBDA x : x = "."))
ForestOk == \A i \in Comps(st) : st.c[i].p < i
EachOnce == Under(st, 0) = Is
=============================================================================
