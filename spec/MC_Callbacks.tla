--------------------------- MODULE MC_Callbacks ---------------------------
(* Every history of up to MaxOps registrations and mode changes.            *)
EXTENDS Callbacks, Json
CONSTANTS MaxOps
VARIABLES st, h
Cs == 1 .. 3
Tys == << <<"A">>, <<"B">>, <<"A", "AA">> >>
Init == st = Init0([ty |-> Tys, ret |-> <<0, 1, 1>>, n |-> 2]) /\ h = <<>>
Do(e) == st' = Step(st, e) /\ h' = Append(h, e)
Next == \/ \E o \in 0 .. 2, c \in Cs, p \in BOOLEAN : Do([op |-> "add", o |-> o, c |-> c, pre |-> p])
        \/ \E c \in Cs, on \in {0, 1} : (on = 0) = (c \notin st.off) /\ Do([op |-> "mode", c |-> c, on |-> on])
View == <<st, h>>
Bound == Len(h) <= MaxOps
Emit == PrintT("@@GEN " \o ToJson(h'))
\* from the history alone
Regs(o) == {h[i].c : i \in {i \in DOMAIN h : h[i].op = "add" /\ h[i].o \in {0, o}}}
Enabled(c) == LET m == {i \in DOMAIN h : h[i].op = "mode" /\ h[i].c = c} IN
              m = {} \/ h[CHOOSE i \in m : \A j \in m : j <= i].on = 1
Exactly == \A o \in {1, 2} : \A ty \in {"A", "B", "AA"} :
             LET s == Live(st, o, ty) IN
             /\ Set(s) = {c \in Regs(o) : Enabled(c) /\ \E i \in DOMAIN Tys[c] : Tys[c][i] = ty}
             /\ Len(s) = Cardinality(Set(s))
\* the callback added last (for the first time) is first or last
First(o, c) == CHOOSE i \in DOMAIN h : h[i].op = "add" /\ h[i].c = c /\ h[i].o \in {0, o} /\
                 \A j \in 1 .. i - 1 : ~(h[j].op = "add" /\ h[j].c = c /\ h[j].o \in {0, o})
Order == \A o \in {1, 2} : Q(st, o) # <<>> =>
           LET l == CHOOSE c \in Regs(o) : \A d \in Regs(o) : First(o, d) <= First(o, c) IN
           IF h[First(o, l)].pre THEN Q(st, o)[1] = l ELSE Q(st, o)[Len(Q(st, o))] = l
=============================================================================
