----------------------------- MODULE MC_Domains -----------------------------
\* Two domains with two run-time phases each: A is in uvm, B in d1.  Objections
\* to run and to each phase are raised and dropped (B drains) in every order.
EXTENDS Phasing, Json
CONSTANTS MaxTime, MaxRaise
VARIABLES st, now, h, n
View == <<st, now, n>>
Cfg == [common |-> <<"build", "run", "extract">>, doms |-> <<"uvm", "d1">>,
        rts |-> << <<"reset", "main">>, <<"d1.reset", "d1.main">> >>]
With(s, evs) == LET RECURSIVE F(_, _)
                    F(x, q) == IF q = <<>> THEN x ELSE F(Step(x, Head(q)), Tail(q)) IN F(s, evs)
Ev(op, p, c, t) == [op |-> op, ph |-> p, c |-> c, t |-> t, s |-> IF op \in DOMAIN SeesState THEN SeesState[op] ELSE ""]
Who(s, p) == LET M == Members(s, p) IN IF M = {"A", "B"} THEN <<"A", "B">> ELSE IF "A" \in M THEN <<"A">> ELSE <<"B">>
Each(s, op, p, t) == With(s, [i \in DOMAIN Who(s, p) |-> Ev(op, p, Who(s, p)[i], t)])
Open(s, p, t) == Each(Each(s, "start", p, t), "in", p, t)
Close(s, p, t) == Each(s, "ended", p, t)
Drn == [A |-> 0, B |-> 1]
Init == LET s0 == With(Init0(Cfg), <<[op |-> "new", c |-> "A", p |-> ""], [op |-> "new", c |-> "B", p |-> "A"],
                                     [op |-> "dom", c |-> "B", d |-> "d1", hier |-> TRUE]>>)
            s1 == Close(Each(Open(s0, "build", 0), "out", "build", 0), "build", 0)
            s2 == Open(Open(Open(s1, "run", 0), "reset", 0), "d1.reset", 0)
        IN /\ st = [s2 EXCEPT !.drain = [p \in s2.P |-> ("B" :> 1) @@ <<>>]]
           /\ now = 0 /\ h = <<>> /\ n = 0
Running(p) == st.t0[p] >= 0 /\ ~Closed(st, p)
Phs == {"run", "reset", "main", "d1.reset", "d1.main"}
Raise(p, c) == /\ Running(p) /\ n < MaxRaise /\ n' = n + 1 /\ c \in Members(st, p)
               /\ Get(st.cnt[p], c) = 0
               /\ st' = Step(st, [op |-> "raise", ph |-> p, c |-> c, n |-> 1, t |-> now])
               /\ h' = Append(h, [do |-> "raise", ph |-> p, c |-> c, t |-> now]) /\ UNCHANGED now
Drop(p, c) == /\ Running(p) /\ Get(st.cnt[p], c) > 0
              /\ st' = Step(st, [op |-> "drop", ph |-> p, c |-> c, n |-> 1, t |-> now])
              /\ h' = Append(h, [do |-> "drop", ph |-> p, c |-> c, t |-> now]) /\ UNCHANGED <<now, n>>
CanEnd(p) == Running(p) /\ Bad(st, Ev("ended", p, Who(st, p)[1], now)) = ""
MustEnd(p) == Running(p) /\ \A q \in Sib(st, p) : st.t0[q] >= 0 /\ ~Outstanding(st, q, now)
Mid(p, q) == CanEnd(p) /\ st' = Open(Close(st, p, now), q, now)
End == /\ \/ Mid("reset", "main") \/ Mid("d1.reset", "d1.main")
          \/ /\ CanEnd("run") /\ CanEnd("main") /\ CanEnd("d1.main")
             /\ st' = Close(Close(Close(st, "run", now), "main", now), "d1.main", now)
       /\ UNCHANGED <<now, h, n>>
Time == /\ now < MaxTime /\ ~Closed(st, "run") /\ \A p \in Phs : ~MustEnd(p)
        /\ now' = now + 1 /\ UNCHANGED <<st, h, n>>
Next == End \/ Time \/ \E p \in Phs, c \in {"A", "B"} : Raise(p, c) \/ Drop(p, c)
Emit == ~(Closed(st', "run") /\ ~Closed(st, "run")) \/ PrintT("@@GEN " \o ToJson(h'))
\* independently stated
HeldNow(p) == \E c \in {"A", "B"} : LET s == {i \in DOMAIN h : h[i].ph = p /\ h[i].c = c} IN
    s # {} /\ LET l == CHOOSE i \in s : \A j \in s : j <= i IN h[l].do = "raise" \/ h[l].t + Drn[c] > st.te[p]
NeverEndsHeld == \A p \in Phs : Closed(st, p) => ~HeldNow(p)
\* the middle phases of a domain end as if the other domain did not exist
Alone == \A p \in {"reset", "d1.reset"} : Closed(st, p) =>
    st.te[p] = MaxOf({0} \cup {h[i].t + Drn[h[i].c] : i \in {j \in DOMAIN h : h[j].ph = p /\ h[j].do = "drop"}})
Own == \A i \in DOMAIN h : h[i].ph \in {"d1.reset", "d1.main"} => h[i].c = "B"
Together == /\ Closed(st, "run") <=> Closed(st, "main")
            /\ Closed(st, "run") <=> Closed(st, "d1.main")
            /\ Closed(st, "run") => st.te["run"] = st.te["main"] /\ st.te["run"] = st.te["d1.main"]
NoDeadlock == Closed(st, "run") \/ now = MaxTime \/ ENABLED Next
=============================================================================
