----------------------------- MODULE MC_Barrier -----------------------------
EXTENDS Barrier, Json
CONSTANTS Thrs, MaxOps, MaxW, MaxTime
VARIABLES st, nw, h
View == <<st, nw>>
Init == \E k \in Thrs : st = Init0([thr |-> k]) /\ nw = 0 /\ h = <<[do |-> "new", v |-> k]>>
T == [t |-> st.now]
Do(e, a) == Bad(st, e) = "" /\ st' = Step(st, e) /\ h' = Append(h, a)
Wait == Do([op |-> "wcall", w |-> nw] @@ T, [do |-> "wait"]) /\ nw' = nw + 1 /\ nw < MaxW
Ret(i) == /\ st.wt[i].s \in {"must", "may"}
          /\ st' = Step(st, [op |-> "wret", w |-> st.wt[i].w] @@ T) /\ UNCHANGED <<nw, h>>
Other == \/ \E w \in BOOLEAN : Do([op |-> "reset", wakeup |-> w] @@ T, [do |-> "reset", wakeup |-> w])
                               \/ Do([op |-> "auto", v |-> w] @@ T, [do |-> "auto", v |-> w])
         \/ \E k \in Thrs : Do([op |-> "thr", v |-> k] @@ T, [do |-> "thr", v |-> k])
         \/ Do([op |-> "cancel"] @@ T, [do |-> "cancel"])
Time == st.now < MaxTime /\ Late(st, st.now + 1) = "" /\ st' = Tick(st, st.now + 1) /\ h' = Append(h, [do |-> "tick"]) /\ UNCHANGED nw
Next == Wait \/ (\E i \in DOMAIN st.wt : Ret(i)) \/ (Other /\ UNCHANGED nw) \/ Time
Bound == Len(h) <= MaxOps
Emit == h' = h \/ PrintT("@@GEN " \o ToJson(h'))
Waiting == Cardinality({i \in DOMAIN st.wt : st.wt[i].s = "wait"})
\* a group that reached the threshold never stays at the barrier
NeverFull == st.n = 0 \/ st.n < st.thr
CountIsWaiting == st.n <= Waiting
OpenOnlyWithoutAuto == st.at => ~st.auto
=============================================================================
