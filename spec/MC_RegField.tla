----------------------------- MODULE MC_RegField -----------------------------
EXTENDS RegField, Json
CONSTANTS MaxOps, Rights
VARIABLES st, h, cfg
View == <<st, cfg>>
V == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>}
Init == \E a \in Policies, r1 \in Rights :
          /\ cfg = [acc |-> a, n |-> 2, vol |-> FALSE, rights |-> <<r1, "RO">>, hasrst |-> TRUE, rst |-> <<1, 0>>, cbs |-> FALSE]
          /\ st = Init0(cfg) /\ h = <<>>
Do(e) == st' = Step(st, e) /\ h' = Append(h, e) /\ UNCHANGED cfg
Next == \/ \E v \in V : Do([op |-> "set", v |-> v])
        \/ \E v \in V, o \in {"pw", "pr"} : Do([op |-> o, v |-> v, map |-> 1, path |-> "F", be |-> TRUE])
        \/ \E v \in V, o \in {"pw", "pr"} : Do([op |-> o, v |-> v, map |-> 0, path |-> "B", be |-> TRUE])
        \/ Do([op |-> "pd", v |-> <<1, 1>>, map |-> 1, path |-> "F", be |-> TRUE])
        \/ Do([op |-> "pw", v |-> <<0, 1>>, map |-> 1, path |-> "F", be |-> FALSE])
        \/ \E k \in {"HARD", "SOFT"} : Do([op |-> "reset", kind |-> k])
        \/ Do([op |-> "setrst", kind |-> "SOFT", v |-> <<0, 1>>])
Bound == Len(h) <= MaxOps
Emit == PrintT("@@GEN " \o ToJson([cfg |-> cfg, h |-> [i \in DOMAIN h' |-> [do |-> h'[i].op] @@ h'[i]]]))
\* ---- independent of the policy tables ----
Sub(a, b) == \A i \in DOMAIN a : a[i] <= b[i]
Written(t, v) == Step(t, [op |-> "pw", v |-> v, map |-> 1, path |-> "F", be |-> TRUE])
ReadF(t, v) == Step(t, [op |-> "pr", v |-> v, map |-> 1, path |-> "F", be |-> TRUE])
RW1 == st.rights[1] = "RW"
ClearOnly == RW1 /\ st.acc \in {"W1C", "W0C", "WC", "WCRS", "W1CRS", "W0CRS", "WOC"} => \A v \in V : Sub(Written(st, v).mir, st.mir)
SetOnly == RW1 /\ st.acc \in {"W1S", "W0S", "WS", "WSRC", "W1SRC", "W0SRC", "WOS"} => \A v \in V : Sub(st.mir, Written(st, v).mir)
Kept == st.acc \in {"RO", "RC", "RS"} \/ st.rights[1] = "RO" => \A v \in V : Written(st, v).mir = st.mir
Once == RW1 /\ st.acc \in {"W1", "WO1"} => \A v, w \in V : Written(Written(st, v), w).mir = Written(st, v).mir
Twice == RW1 /\ st.acc \in {"W1T", "W0T"} => \A v \in V : Written(Written(st, v), v).mir = st.mir
Drained == RW1 /\ st.acc \in {"RC", "WRC", "WSRC", "W1SRC", "W0SRC"} => \A v \in V : ReadF(st, v).mir = Zero(2)
\* writing the update value brings the hardware to the desired value
Update == RW1 /\ st.des # st.mir => Written(st, U(st.acc, st.des, st.mir)).mir = st.des
=============================================================================
