------------------------------ MODULE MC_Queue ------------------------------
(* Laws of the operations on queues.                                        *)
EXTENDS Queue, Json
CONSTANTS MaxOps, MaxLen
VARIABLES st, h
View == st
Init == st = Init0([n |-> 1]) /\ h = <<>>
Vs == {1, 2}
Do(e) == Len(h) < MaxOps /\ st' = Step(st, e) /\ h' = Append(h, [do |-> e.op] @@ e)
Qs == DOMAIN st.q
Next == \/ \E k \in Qs, v \in Vs : Len(st.q[k]) < MaxLen /\ (Do([op |-> "push_back", k |-> k, v |-> v]) \/ Do([op |-> "push_front", k |-> k, v |-> v]))
        \/ \E k \in Qs : Do([op |-> "pop_back", k |-> k]) \/ Do([op |-> "pop_front", k |-> k])
        \/ \E k \in Qs, i \in {-1, 0, 1, 2} : Do([op |-> "delete", k |-> k, i |-> i]) \/ Do([op |-> "set", k |-> k, i |-> i, v |-> 2])
                                              \/ (Len(st.q[k]) < MaxLen /\ Do([op |-> "insert", k |-> k, i |-> i, v |-> 1]))
        \/ Len(st.q) < 2 /\ Do([op |-> "clone", k |-> 1])
        \/ Len(st.q) = 2 /\ \E k \in Qs : Do([op |-> "copy", k |-> k, from |-> 3 - k])
Emit == PrintT("@@GEN " \o ToJson(h'))
E(op, k) == [op |-> op, k |-> k]
PushPop == \A k \in Qs, v \in Vs : /\ Res(Step(st, [op |-> "push_back", k |-> k, v |-> v]), E("pop_back", k)) = <<v>>
                                   /\ Step(Step(st, [op |-> "push_back", k |-> k, v |-> v]), E("pop_back", k)) = st
                                   /\ Res(Step(st, [op |-> "push_front", k |-> k, v |-> v]), E("pop_front", k)) = <<v>>
                                   /\ Step(Step(st, [op |-> "push_front", k |-> k, v |-> v]), E("pop_front", k)) = st
InsDel == \A k \in Qs, i \in 0 .. MaxLen : i < Len(st.q[k]) =>
              LET s == Step(st, [op |-> "insert", k |-> k, i |-> i, v |-> 9])
              IN Res(s, [op |-> "get", k |-> k, i |-> i]) = <<9>> /\ Step(s, [op |-> "delete", k |-> k, i |-> i]) = st
                 /\ Res(s, [op |-> "find_first", k |-> k, v |-> 9]) = <<i>>
SliceAll == \A k \in Qs : Res(st, [op |-> "slice", k |-> k, a |-> <<>>, b |-> <<>>]) = st.q[k]
\* nothing that is done to one queue changes another
OneAtATime == [][\A k \in Qs : h' # h /\ k \in DOMAIN st'.q /\ h'[Len(h')].k # k => st'.q[k] = st.q[k]]_<<st, h>>
=============================================================================
