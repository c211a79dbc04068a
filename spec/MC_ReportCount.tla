--------------------------- MODULE MC_ReportCount --------------------------
(* Every history of up to MaxOps messages, quit count settings and resets.  *)
EXTENDS Report, Json
CONSTANTS MaxOps
VARIABLES st, h
View == <<st, h>>
Init == /\ st = Init0([par |-> <<0, 1>>, name |-> <<"reporter", "c2">>, base |-> <<0, 0, 0, 0>>, ids |-> None, quit |-> 0, max |-> 0, rules |-> <<>>])
        /\ h = <<>>
Do(e) == ~st.died /\ st' = Step(st, e) /\ h' = Append(h, e)
Next == \/ \E sev \in 0 .. 3, id \in {"A", "B"} : Do([op |-> "msg", c |-> 2, sev |-> sev, id |-> id, msg |-> "m1", verb |-> 0, how |-> ""])
        \/ \E n \in 0 .. 2 : Do([op |-> "max", n |-> n, ovr |-> TRUE])
        \/ Do([op |-> "clear"])
        \/ Do([op |-> "set", c |-> 2, hier |-> FALSE, what |-> "sevact", sev |-> 1, id |-> "A", v |-> 4])
        \/ Do([op |-> "set", c |-> 2, hier |-> FALSE, what |-> "idact", sev |-> 1, id |-> "A", v |-> 0])
Bound == Len(h) <= MaxOps
Ren(s) == [i \in DOMAIN s |-> [do |-> s[i].op] @@ s[i]]
Emit == PrintT("@@GEN " \o ToJson([par |-> <<0, 1>>, rules |-> <<>>, h |-> Ren(h')]))
\* from the history alone
Before(i, P(_)) == \E j \in 1 .. i - 1 : P(h[j])
Silent(i) == h[i].id = "A" /\ \E j \in 1 .. i - 1 : h[j].op = "set" /\ h[j].what = "idact"
Counts(i) == ~Silent(i) /\ (h[i].sev = 2 \/ (h[i].sev = 1 /\ \E j \in 1 .. i - 1 : h[j].op = "set" /\ h[j].what = "sevact"))
LastClear == LET m == {i \in DOMAIN h : h[i].op = "clear"} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : j <= i
Max(i) == LET m == {j \in 1 .. i - 1 : h[j].op = "max"} IN IF m = {} THEN 0 ELSE h[CHOOSE j \in m : \A k \in m : k <= j].n
Msgs == {i \in DOMAIN h : h[i].op = "msg"}
SevCounts == \A s \in 0 .. 3 : st.sev[s] = Cardinality({i \in Msgs : i > LastClear /\ h[i].sev = s /\ ~Silent(i)})
IdCounts == \A x \in {"A", "B"} : (IF Has(st.ids, x) THEN st.ids[x] ELSE 0) = Cardinality({i \in Msgs : h[i].id = x /\ ~Silent(i)})
QuitCount == st.quit = Cardinality({i \in Msgs : i > LastClear /\ Counts(i) /\ Max(i) # 0})
Ends == st.died = (h # <<>> /\ h[Len(h)].op = "msg" /\ ~Silent(Len(h)) /\
                   (h[Len(h)].sev = 3 \/ (Counts(Len(h)) /\ Max(Len(h)) # 0 /\ st.quit >= Max(Len(h)))))
=============================================================================
