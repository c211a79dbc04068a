---------------------------- MODULE MC_Resource ----------------------------
(* Every history of up to MaxOps operations on three resources of one name.  *)
EXTENDS Resource, Json
CONSTANTS MaxOps
VARIABLES st, h, log
View == <<st, log>>
Chars == ("*" :> <<"*">>) @@ ("a" :> <<"a">>) @@ ("b" :> <<"b">>)
Scopes == <<"*", "a", "a">>
Rs == 1 .. 3
Init == /\ st = [Init0([ch |-> Chars]) EXCEPT !.res = [r \in Rs |-> New("n", Scopes[r])]]
        /\ h = [r \in Rs |-> [do |-> "new", name |-> "n", scope |-> Scopes[r]]] /\ log = <<>>
Do(e, a) == st' = Step(st, e @@ [t |-> 0]) /\ h' = Append(h, a) /\ log' = Append(log, e)
Next == \E r \in Rs :
  \/ r \notin Set(st.q) /\ (Do([op |-> "set", r |-> r], [do |-> "set", r |-> r]) \/ Do([op |-> "ovr", r |-> r], [do |-> "ovr", r |-> r]))
  \/ r \in Set(st.q) /\ \E b \in BOOLEAN : Do([op |-> "prio", r |-> r, hi |-> b], [do |-> "prio", r |-> r, hi |-> b])
  \/ st.res[r].prec = 1000 /\ Do([op |-> "prec", r |-> r, n |-> 1001], [do |-> "prec", r |-> r, n |-> 1001])
  \/ \E v \in {"x", "y"} : r = 1 /\ Do([op |-> "write", r |-> r, v |-> v, err |-> st.res[r].ro], [do |-> "write", r |-> r, v |-> v])
  \/ \E b \in BOOLEAN : r = 1 /\ st.res[r].ro # b /\ Do([op |-> "ro", r |-> r, b |-> b], [do |-> "ro", r |-> r, b |-> b])
Bound == Len(log) <= MaxOps
Emit == PrintT("@@GEN " \o ToJson(h'))
\* from the log alone
Added(r) == \E i \in DOMAIN log : log[i].op \in {"set", "ovr"} /\ log[i].r = r
\* rank of r: later pushes to the front come first, later pushes to the back last
LastMove(r) == CHOOSE i \in DOMAIN log : log[i].op \in {"set", "ovr", "prio"} /\ log[i].r = r /\
                 \A j \in DOMAIN log : (j > i /\ log[j].op \in {"set", "ovr", "prio"}) => log[j].r # r
Front(i) == log[i].op = "ovr" \/ (log[i].op = "prio" /\ log[i].hi)
Rank(r) == IF Front(LastMove(r)) THEN 0 - LastMove(r) ELSE LastMove(r)
PrecOf(r) == IF \E i \in DOMAIN log : log[i].op = "prec" /\ log[i].r = r THEN 1001 ELSE 1000
Best1(s) == LET m == {r \in Rs : Added(r) /\ (Scopes[r] = "*" \/ Scopes[r] = s)} IN
            IF m = {} THEN 0 ELSE CHOOSE r \in m : \A x \in m : PrecOf(r) > PrecOf(x) \/ (PrecOf(r) = PrecOf(x) /\ Rank(r) <= Rank(x))
Winner == \A s \in {"a", "b"} : Best(st, Look(st, s, "n")) = Best1(s)
RECURSIVE Val(_, _, _)
Val(i, v, ro) == IF i > Len(log) THEN v
   ELSE IF log[i].op = "ro" /\ log[i].r = 1 THEN Val(i + 1, v, log[i].b)
   ELSE IF log[i].op = "write" /\ log[i].r = 1 /\ ~ro THEN Val(i + 1, log[i].v, ro) ELSE Val(i + 1, v, ro)
LastWrite == st.res[1].v = Val(1, "None", FALSE)
=============================================================================
