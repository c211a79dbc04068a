------------------------------- MODULE MC_Tlm2 -------------------------------
(* A chain of sockets connected in any order, with calls in both directions,
   or time variables and payloads being worked on.                            *)
EXTENDS Tlm2, Json
CONSTANTS Fams, MaxI, MaxT, MaxOps
VARIABLES st, h, mode, n, sh
View == <<st, mode, n, sh>>
Name(i) == "n" \o ToString(i)
Chain(f, a, b) == [i \in 1 .. a + b + 2 |-> [n |-> Name(i), k |-> f \o (IF i = 1 THEN "i" ELSE IF i <= a + 1 THEN "I" ELSE IF i <= a + b + 1 THEN "T" ELSE "t")]]
Init == \/ /\ \E f \in Fams, a \in 0 .. MaxI, b \in 0 .. MaxT :
                 /\ st = Init0([nodes |-> Chain(f, a, b)])
                 /\ h = <<[do |-> "init", nodes |-> Chain(f, a, b), a |-> a, b |-> b]>>
           /\ mode = "sock" /\ n = 0 /\ sh = 0
        \/ st = Init0([nodes |-> <<>>]) /\ h = <<[do |-> "init", nodes |-> <<>>, a |-> 0, b |-> 0]>> /\ mode = "time" /\ n = 0 /\ sh = 0
Do(e, extra) == st' = Step(st, e) /\ h' = Append(h, [do |-> e.op] @@ e) /\ n' = n + 1 /\ sh' = extra /\ UNCHANGED mode
Len0 == Cardinality(DOMAIN st.kind)
Nodes == {Name(i) : i \in 1 .. Len0}
Sock ==
    \/ \E i \in 1 .. Len0 - 1 : Name(i) \notin DOMAIN st.fwd /\ Do([op |-> "connect", a |-> Name(i), b |-> Name(i + 1)], 0)
    \/ /\ Complete(st) /\ n < Len0 - 1 + 2
       /\ \E x \in Nodes, nul \in {0, 1} :
            IF Fam(st.kind[x]) = "n" THEN \E d \in {"fw", "bw"}, r \in {"ACCEPTED", "COMPLETED"} :
                     /\ d = "bw" => Role(st.kind[x]) \in {"T", "I", "t"}
                     /\ Do([op |-> "nb", s |-> x, dir |-> d, ret |-> r, null |-> nul], 0)
            ELSE /\ Role(st.kind[x]) # "t"
                 /\ Do([op |-> "bstart", id |-> n, s |-> x, null |-> nul, at |-> 0, dur |-> 2, d |-> 1000], 0)
    \/ \E k \in DOMAIN st.open : st.open[k].seen = 0 /\ Do([op |-> "brecv", id |-> k], 0)
    \/ \E k \in DOMAIN st.open : st.open[k].seen = 1 /\ Do([op |-> "bend", id |-> k], 0)
Time ==
    /\ n < MaxOps
    /\ \/ st.tm = None /\ \E r \in {1000, 1000000} : Do([op |-> "tnew", id |-> 1, res |-> r], 0)
       \/ st.tm # None /\ \/ \E x \in {-1, 0, 3}, sc \in {1, 10} : \E o \in {"incr", "decr"} :
                               Do([op |-> o, id |-> 1, x |-> x * sc, sc |-> sc, u |-> 1000000], TimeErr(st.tm[1].v, [op |-> o, x |-> x * sc, sc |-> sc, u |-> 1000000]))
                          \/ \E x \in {0, 2} : Do([op |-> "setabs", id |-> 1, x |-> x, u |-> 1000000], 0)
                          \/ Do([op |-> "treset", id |-> 1], 0)
       \/ st.pl = None /\ Do([op |-> "pnew", id |-> 1], 0)
       \/ st.pl # None /\ (\E v \in {"READ", "WRITE", "IGNORE"} : Do([op |-> "pcmd", id |-> 1, v |-> v], 0) \/ Do([op |-> "paddr", id |-> 1, v |-> 64], 0))
Next == IF mode = "sock" THEN Sock ELSE Time
Emit == PrintT("@@GEN " \o ToJson(h'))
\* a complete chain leads every node forward to the target and backward to the initiator, whatever the order of connecting
Ends == Complete(st) => \A x \in DOMAIN st.kind : /\ Role(st.kind[End(st, x)]) = "t" /\ Role(st.kind[Start(st, x)]) = "i"
                                                  /\ Start(st, End(st, x)) = Start(st, x) /\ End(st, Start(st, x)) = End(st, x)
\* an incomplete chain is noticed
Open == mode = "sock" => (Complete(st) <=> Cardinality(DOMAIN st.fwd) = Len0 - 1)
NonNeg == \A x \in DOMAIN st.tm : st.tm[x].v >= 0
OneKind == \A x \in DOMAIN st.pl : LET q == Exp(st, [op |-> "pget", id |-> x]) IN q.rd + q.wr <= 1
=============================================================================
