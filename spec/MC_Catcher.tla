----------------------------- MODULE MC_Catcher -----------------------------
(* Every registration of catchers with given rules, then messages.           *)
EXTENDS Report, Json
CONSTANTS MaxOps
VARIABLES st, h, r
View == <<st, h>>
R0 == [kind |-> "catcher", sev |-> -1, id |-> "", nsev |-> -1, nid |-> "", nmsg |-> "", nverb |-> -1, nact |-> -1,
       extra |-> -1, everb |-> 0, issue |-> FALSE, ret |-> 1]
Rules == << [R0 EXCEPT !.sev = 2, !.nsev = 1], [R0 EXCEPT !.sev = 1, !.ret = 2], [R0 EXCEPT !.sev = 2, !.nsev = 1, !.nact = 5],
            [R0 EXCEPT !.id = "A", !.nid = "B", !.nmsg = "x1"] >>
Init == /\ st = Init0([par |-> <<0, 1>>, name |-> <<"reporter", "c2">>, base |-> <<0, 0, 0, 0>>, ids |-> None, quit |-> 0, max |-> 0, rules |-> Rules])
        /\ h = <<>> /\ r = [op |-> "none"]
Do(e) == st' = Step(st, e) /\ h' = Append(h, e) /\ UNCHANGED r
Used(k) == \E i \in DOMAIN h : h[i].op = "add" /\ h[i].k = k
Next == r.op = "none" /\
        (\/ \E c \in {0, 2}, k \in 1 .. 4, p \in BOOLEAN : ~Used(k) /\ Do([op |-> "add", c |-> c, k |-> k, pre |-> p])
         \/ \E k \in 1 .. 4 : Used(k) /\ Do([op |-> "mode", k |-> k, on |-> k \in st.off])
         \/ \E c \in {1, 2}, sev \in {1, 2}, id \in {"A", "C"} :
              LET e == [op |-> "msg", c |-> c, sev |-> sev, id |-> id, msg |-> "m1", verb |-> 0, how |-> ""]
                  x == Message(st, e) IN
              r' = [op |-> "msg", e |-> e, seen |-> x.seen, outs |-> x.outs] /\ st' = x.st /\ h' = Append(h, e))
Bound == Len(h) <= MaxOps
Ren(s) == [i \in DOMAIN s |-> [do |-> s[i].op] @@ s[i]]
Emit == r'.op = "none" \/ PrintT("@@GEN " \o ToJson([par |-> <<0, 1>>, rules |-> Rules, h |-> Ren(h')]))
On(k) == Cardinality({i \in DOMAIN h : h[i].op = "mode" /\ h[i].k = k}) % 2 = 0
For(c, k) == On(k) /\ \E i \in DOMAIN h : h[i].op = "add" /\ h[i].k = k /\ h[i].c \in {0, c}
SeenSet == {r.seen[i].k : i \in DOMAIN r.seen}
\* nobody sees it twice; only registered, enabled catchers; all of them unless one caught it: the last to see it, a warning
Seen == r.op = "msg" =>
   /\ Len(r.seen) = Cardinality(SeenSet)
   /\ \A k \in SeenSet : For(r.e.c, k)
   /\ (\E k \in 1 .. 4 : For(r.e.c, k) /\ k \notin SeenSet) => (r.seen # <<>> /\ r.seen[Len(r.seen)].k = 2 /\ r.seen[Len(r.seen)].sev = 1)
Caught == r.op = "msg" /\ r.seen # <<>> /\ r.seen[Len(r.seen)].k = 2 /\ r.seen[Len(r.seen)].sev = 1
Issued == r.op = "msg" => Len(r.outs) = (IF Caught THEN 0 ELSE 1) /\ (st.sev[1] + st.sev[2]) = Len(r.outs)
\* the message carries on as the earlier catchers left it
Carries == r.op = "msg" => \A i \in DOMAIN r.seen :
   /\ r.seen[i].sev = (IF r.e.sev = 2 /\ \E j \in 1 .. i - 1 : r.seen[j].k \in {1, 3} THEN 1 ELSE r.e.sev)
   /\ r.seen[i].id = (IF r.e.id = "A" /\ \E j \in 1 .. i - 1 : r.seen[j].k = 4 THEN "B" ELSE r.e.id)
   /\ r.seen[i].act = (IF r.seen[i].sev = 2 THEN 5 ELSE IF r.e.sev = 1 THEN 1
                       ELSE IF \A j \in 1 .. i - 1 : r.seen[j].k = 3 => \E x \in 1 .. j - 1 : r.seen[x].k = 1 THEN 1 ELSE 5)
=============================================================================
