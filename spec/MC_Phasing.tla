----------------------------- MODULE MC_Phasing -----------------------------
(* Two components that raise and drop objections (with and without a drain)  *)
(* in run and two run-time phases, in every order, over MaxTime time units.  *)
EXTENDS Phasing, Json
CONSTANTS MaxTime, MaxRaise
VARIABLES st, now, h, n
View == <<st, now, n>>
Comps == {"A", "B"}
Cfg == [common |-> <<"build", "run", "extract">>, doms |-> <<"uvm">>, rts |-> << <<"reset", "main">> >>]
All == <<"build", "run", "extract">>
With(s, evs) == LET RECURSIVE F(_, _)
                    F(x, q) == IF q = <<>> THEN x ELSE F(Step(x, Head(q)), Tail(q)) IN F(s, evs)
Ev(op, p, c, t) == [op |-> op, ph |-> p, c |-> c, t |-> t, s |-> IF op \in DOMAIN SeesState THEN SeesState[op] ELSE ""]
Open(s, p, t) == With(s, <<Ev("start", p, "A", t), Ev("start", p, "B", t), Ev("in", p, "A", t), Ev("in", p, "B", t)>>)
Close(s, p, t) == With(s, <<Ev("ended", p, "A", t), Ev("ended", p, "B", t)>>)
Drn == [A |-> 0, B |-> 1]
Init == LET s0 == With(Init0(Cfg), <<[op |-> "new", c |-> "A", p |-> ""], [op |-> "new", c |-> "B", p |-> "A"]>>)
            s1 == Open(s0, "build", 0)
            s2 == With(s1, <<Ev("out", "build", "A", 0), Ev("out", "build", "B", 0)>>)
            s3 == Open(Open(Close(s2, "build", 0), "run", 0), "reset", 0)
        IN /\ st = [s3 EXCEPT !.drain = [p \in s3.P |-> ("B" :> 1) @@ <<>>]]
           /\ now = 0 /\ h = <<>> /\ n = 0
Running(p) == st.t0[p] >= 0 /\ ~Closed(st, p)
Phs == {"run", "reset", "main"}
Raise(p, c) == /\ Running(p) /\ n < MaxRaise /\ n' = n + 1
               /\ Get(st.cnt[p], c) = 0 
               /\ st' = Step(st, [op |-> "raise", ph |-> p, c |-> c, n |-> 1, t |-> now])
               /\ h' = Append(h, [do |-> "raise", ph |-> p, c |-> c, t |-> now]) /\ UNCHANGED now
Drop(p, c) == /\ Running(p) /\ Get(st.cnt[p], c) > 0
              /\ st' = Step(st, [op |-> "drop", ph |-> p, c |-> c, n |-> 1, t |-> now])
              /\ h' = Append(h, [do |-> "drop", ph |-> p, c |-> c, t |-> now]) /\ UNCHANGED <<now, n>>
CanEnd(p) == Running(p) /\ Bad(st, Ev("ended", p, "A", now)) = ""
MustEnd(p) == Running(p) /\ \A q \in Sib(st, p) : st.t0[q] >= 0 /\ ~Outstanding(st, q, now)
\* run and main end together, and the next phase begins at once
End == \/ /\ CanEnd("reset") /\ st' = Open(Close(st, "reset", now), "main", now) /\ UNCHANGED <<now, h, n>>
       \/ /\ CanEnd("run") /\ CanEnd("main") /\ st' = Close(Close(st, "run", now), "main", now) /\ UNCHANGED <<now, h, n>>
Time == /\ now < MaxTime /\ ~Closed(st, "run") /\ \A p \in Phs : ~MustEnd(p)
        /\ now' = now + 1 /\ UNCHANGED <<st, h, n>>
Next == End \/ Time \/ \E p \in Phs, c \in Comps : Raise(p, c) \/ Drop(p, c)
Emit == ~(Closed(st', "run") /\ ~Closed(st, "run")) \/ PrintT("@@GEN " \o ToJson(h'))
\* independently stated
Held(p) == \E i \in DOMAIN h : h[i].do = "raise" /\ h[i].ph = p /\
             ~\E j \in DOMAIN h : j > i /\ h[j].do = "drop" /\ h[j].ph = p /\ h[j].c = h[i].c /\ h[j].t + Drn[h[j].c] <= st.te[p]
                 /\ ~\E k \in DOMAIN h : k > j /\ h[k].do = "raise" /\ h[k].ph = p /\ h[k].c = h[i].c
HeldNow(p) == \E c \in Comps : LET s == {i \in DOMAIN h : h[i].ph = p /\ h[i].c = c} IN
    s # {} /\ LET l == CHOOSE i \in s : \A j \in s : j <= i IN h[l].do = "raise" \/ h[l].t + Drn[c] > st.te[p]
NeverEndsHeld == \A p \in Phs : Closed(st, p) => ~HeldNow(p)
Serial == /\ Closed(st, "main") => Closed(st, "reset") /\ st.te["reset"] <= st.te["main"]
          /\ st.t0["main"] >= 0 => st.t0["main"] = st.te["reset"]
          /\ Closed(st, "run") => Closed(st, "main") /\ st.te["run"] = st.te["main"]
\* the end is exactly when the last objection was released (nothing objecting: at once)
Prompt == Closed(st, "reset") => st.te["reset"] = MaxOf({0} \cup {h[i].t + Drn[h[i].c] : i \in {j \in DOMAIN h : h[j].ph = "reset" /\ h[j].do = "drop"}})
NoDeadlock == Closed(st, "run") \/ now = MaxTime \/ ENABLED Next
=============================================================================
