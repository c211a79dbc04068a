------------------------------ MODULE MC_Event ------------------------------
EXTENDS Event, Json
CONSTANTS MaxOps, MaxW, MaxTime
VARIABLES st, nw, nd, h
View == <<st, nw, nd>>
Init == st = Init0(0) /\ nw = 0 /\ nd = 0 /\ h = <<>>
Do(e, a) == Bad(st, e) = "" /\ st' = Step(st, e) /\ h' = Append(h, a)
T == [t |-> st.now]
Trigger == Do([op |-> "trigger", d |-> ToString(nd), calls |-> Calls(st)] @@ T, [do |-> "trigger"]) /\ nd' = nd + 1 /\ nd < 2 /\ UNCHANGED nw
Wait(k) == Do([op |-> "wcall", w |-> nw, k |-> k] @@ T, [do |-> "wait", k |-> k]) /\ nw' = nw + 1 /\ nw < MaxW /\ UNCHANGED nd
Ret(i) == /\ st.wt[i].s \in {"must", "may"}
          /\ st' = Step(st, [op |-> "wret", w |-> st.wt[i].w, d |-> "-"] @@ T) /\ UNCHANGED <<nw, nd, h>>
Other == \/ \E w \in BOOLEAN : Do([op |-> "reset", wakeup |-> w] @@ T, [do |-> "reset", wakeup |-> w])
         \/ Do([op |-> "cancel"] @@ T, [do |-> "cancel"])
         \/ \E c \in {"a", "b"}, p \in BOOLEAN :
               Do([op |-> "addcb", id |-> c, veto |-> (c = "b"), append |-> p] @@ T, [do |-> "addcb", id |-> c, veto |-> (c = "b"), append |-> p])
         \/ \E c \in {"a", "b"} : Do([op |-> "delcb", id |-> c] @@ T, [do |-> "delcb", id |-> c])
Time == st.now < MaxTime /\ Late(st, st.now + 1) = "" /\ st' = Tick(st, st.now + 1) /\ h' = Append(h, [do |-> "tick"]) /\ UNCHANGED <<nw, nd>>
Next == Trigger \/ (\E k \in {"trig", "ptrig", "on", "off"} : Wait(k)) \/ (\E i \in DOMAIN st.wt : Ret(i))
        \/ (Other /\ UNCHANGED <<nw, nd>>) \/ Time
Bound == Len(h) <= MaxOps
Emit == h' = h \/ PrintT("@@GEN " \o ToJson(h'))
W(k, s) == {i \in DOMAIN st.wt : st.wt[i].k = k /\ st.wt[i].s = s}
\* nobody stays blocked on a level that holds, no trigger is lost
LevelRespected == /\ st.on => W("on", "wait") = {}
                  /\ ~st.on => W("off", "wait") = {}
TriggerReachesAll == st.slot = st.now => W("ptrig", "wait") = {}
CountBound == st.nw <= Cardinality({i \in DOMAIN st.wt : st.wt[i].s # "must"})
=============================================================================
