------------------------------- MODULE MC_Pool -------------------------------
(* Iterating over pools which change meanwhile.                             *)
EXTENDS Pool, Json, FiniteSets
CONSTANTS MaxOps
VARIABLES st, h, seen
View == <<st, seen>>
Ks == {"a", "b", "c"}
Init == st \in {Init0([kinds |-> <<kd>>]) : kd \in {"plain", "make", "obj"}} /\ h = <<>> /\ seen = <<>>
Do(e) == Len(h) < MaxOps /\ st' = Step(st, e) /\ h' = Append(h, [do |-> e.op] @@ e)
Is(e, o) == \E i \in DOMAIN o : o[i] = e.op
Plain(k) == st.kind[k] = "plain"
\* seen: what "first" and then "next" of pool 1 have returned since
Next == \/ \E k \in DOMAIN st.p, key \in Ks : Plain(k) /\ Do([op |-> "add", k |-> k, key |-> key, v |-> Len(h)]) /\ seen' = seen
        \/ \E k \in DOMAIN st.p, key \in Ks : ~Plain(k) /\ Do([op |-> "get", k |-> k, key |-> key]) /\ seen' = seen
        \/ \E k \in DOMAIN st.p, key \in Ks : Do([op |-> "delete", k |-> k, key |-> key]) /\ seen' = seen
        \/ Do([op |-> "first", k |-> 1]) /\ seen' = Res(st, [op |-> "first", k |-> 1])
        \/ Do([op |-> "next", k |-> 1]) /\ seen' = IF seen = <<>> THEN seen ELSE seen \o Res(st, [op |-> "next", k |-> 1])
        \/ \E o \in {"last", "prev"} : Do([op |-> o, k |-> 1]) /\ seen' = <<>>
        \/ \E k \in DOMAIN st.p : st.kind[k] # "obj" /\ Do([op |-> "clear", k |-> k]) /\ seen' = IF k = 1 THEN <<>> ELSE seen
        \/ Len(st.p) = 1 /\ Do([op |-> "clone", k |-> 1]) /\ seen' = seen
        \/ Len(st.p) = 2 /\ Do([op |-> "copy", k |-> 1, from |-> 2]) /\ seen' = <<>>
Emit == PrintT("@@GEN " \o ToJson([kind |-> st.kind[1], h |-> h']))
Keys(k) == {st.p[k].keys[i] : i \in DOMAIN st.p[k].keys}
NoDup == \A k \in DOMAIN st.p : Cardinality(Keys(k)) = Len(st.p[k].keys) /\ Len(st.p[k].v) = Len(st.p[k].keys)
PtrIn == \A k \in DOMAIN st.p : st.p[k].ptr \in 0 .. Len(st.p[k].keys)
\* an iteration that is at its end has visited every key there is
SeenAll == seen # <<>> /\ st.p[1].ptr = Len(st.p[1].keys) => Keys(1) \subseteq {seen[i] : i \in DOMAIN seen}
\* values that pools made are different
Fresh == \A k \in DOMAIN st.p, i, j \in DOMAIN st.p[1].keys : st.kind[1] # "plain" /\ i # j => st.p[1].v[i] # st.p[1].v[j]
=============================================================================
