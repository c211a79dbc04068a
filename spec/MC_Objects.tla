---------------------------- MODULE MC_Objects ----------------------------
(* Small heaps of nodes: what a copy reaches is separate from the original  *)
(* and has the same shape, and compares equal to it.                        *)
EXTENDS Objects, Json
CONSTANTS MaxObj, MaxOps
VARIABLES st, h, last
View == <<st, last>>
Fl(f, k, d) == [f |-> f, k |-> k, copy |-> TRUE, cmp |-> TRUE, ref |-> FALSE, bits |-> 0, d |-> d]
\* the classes "Pair" and "Sub" of the driver
Classes == <<[base |-> 0, fields |-> <<Fl("p", "int", 0), Fl("x", "obj", 0)>>],
             [base |-> 1, fields |-> <<[Fl("q", "int", 5) EXCEPT !.copy = FALSE], Fl("y", "obj", 0), [Fl("z", "obj", 0) EXCEPT !.ref = TRUE, !.cmp = FALSE]>>]>>
Init == st = Init0([classes |-> Classes]) /\ h = <<>> /\ last = <<>>
Do(e) == st' = Step(st, e) /\ h' = Append(h, e)
Ob == DOMAIN st.heap
ObjFields(c) == IF c = 1 THEN {"x"} ELSE {"x", "y", "z"}
Next == \/ Len(st.heap) < 2 /\ \E c \in {1, 2} : Do([op |-> "new", c |-> c]) /\ last' = <<>>
        \/ \E a \in Ob : Do([op |-> "set", a |-> a, f |-> "p", v |-> 1]) /\ st' # st /\ last' = <<>>
        \/ \E a \in Ob : \E f \in ObjFields(st.heap[a].c), v \in Ob : Do([op |-> "set", a |-> a, f |-> f, v |-> v]) /\ st' # st /\ last' = <<>>
        \/ Len(st.heap) < MaxObj /\ \E a \in Ob : Do([op |-> "clone", a |-> a]) /\ last' = <<Len(st.heap) + 1, a>>
        \/ Len(st.heap) < MaxObj /\ \E a, b \in Ob : a # b /\ Do([op |-> "copy", a |-> a, b |-> b]) /\ last' = <<>>
Bound == Len(h) <= MaxOps
\* the comparison of every pair ends a history
Emit == PrintT("@@GEN " \o ToJson([i \in DOMAIN h' |-> [do |-> h'[i].op] @@ h'[i]]))
E0(a, b) == [op |-> "compare", a |-> a, b |-> b, ct |-> TRUE]
Refs(o) == {st.heap[o].v[f] : f \in {"x"} \cup (IF st.heap[o].c = 2 THEN {"y"} ELSE {})} \ {0}
RECURSIVE ReachR(_, _)
ReachR(S, n) == IF n = 0 THEN S ELSE ReachR(S \cup UNION {Refs(o) : o \in S}, n - 1)
Reach(o) == ReachR({o}, MaxObj + 3)
\* a clone shares nothing that was to be copied, has the same shape, and compares equal when every compared field is copied
CloneSeparate == last = <<>> \/ Reach(last[1]) \cap Reach(last[2]) = {}
CloneShape == last = <<>> \/ Cardinality(Reach(last[1])) = Cardinality(Reach(last[2]))
QDefault(S) == \A o \in S : st.heap[o].c = 1 \/ st.heap[o].v["q"] = 5
CloneEqual == last = <<>> \/ (QDefault(Reach(last[2])) => Diffs(st, E0(last[1], last[2])) = 0 /\ Diffs(st, E0(last[2], last[1])) = 0)
SelfEqual == \A a \in Ob : Diffs(st, E0(a, a)) = 0
=============================================================================
