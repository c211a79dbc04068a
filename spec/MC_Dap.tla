------------------------------- MODULE MC_Dap -------------------------------
EXTENDS Dap, Json
CONSTANTS MaxOps
VARIABLES st, h
View == st
Init == h = <<>> /\ st \in {Init0([kinds |-> <<k, k2>>]) : k, k2 \in {"sbg", "gtl", "sl"}}
Do(e) == Len(h) < MaxOps /\ st' = Step(st, e) /\ h' = Append(h, [do |-> e.op] @@ e)
Next == \E i \in {1, 2} :
           \/ \E o \in {"set", "try_set"}, v \in {1, 2} : Do([op |-> o, i |-> i, v |-> v])
           \/ \E o \in {"get", "try_get"} : Do([op |-> o, i |-> i])
           \/ st.d[i].k = "sl" /\ \E o \in {"lock", "unlock", "is_locked"} : Do([op |-> o, i |-> i])
           \/ \E o \in {"clone", "pack", "unpack"} : Do([op |-> o, i |-> i])
           \/ st.d[i].k = st.d[3 - i].k /\ Do([op |-> "copy", i |-> i, from |-> 3 - i])
Emit == PrintT("@@GEN " \o ToJson([kinds |-> [i \in {1, 2} |-> st.d[i].k], h |-> h']))
\* once read, a get-to-lock container keeps its value; locked, a simple-lock container does; never two containers change at once
Kept == [][\A i \in {1, 2} : st.d[i].flag /\ st.d[i].k # "sbg" => st'.d[i].v = st.d[i].v]_<<st, h>>
One == [][\A i \in {1, 2} : h' # h /\ h'[Len(h')].i # i => st'.d[i] = st.d[i]]_<<st, h>>
ReadLocks == [][\A i \in {1, 2} : st.d[i].k = "gtl" /\ h' # h /\ h'[Len(h')].i = i /\ h'[Len(h')].op \in {"get", "try_get"} => st'.d[i].flag]_<<st, h>>
NoValueOnlyUnset == \A i \in {1, 2} : st.d[i].k = "sbg" => (st.d[i].v = 0 <=> ~st.d[i].flag)
=============================================================================
