------------------------------ MODULE Barrier ------------------------------
(* UVM barrier: threshold, automatic reset, reset, cancel. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Init0(cfg) == [thr |-> cfg.thr, n |-> 0, auto |-> TRUE, at |-> FALSE, now |-> 0, wt |-> <<>>]

Late(st, t) == IF t > st.now /\ \E i \in DOMAIN st.wt : st.wt[i].s = "must" THEN "released-waiter-still-blocked" ELSE ""
Tick(st, t) == IF t <= st.now THEN st ELSE
   [st EXCEPT !.now = t, !.wt = [i \in DOMAIN @ |-> IF @[i].s = "may" THEN [@[i] EXCEPT !.s = "orphan"] ELSE @[i]]]
Release(st) == [st EXCEPT !.n = 0, !.wt = [i \in DOMAIN @ |->
                  [@[i] EXCEPT !.s = IF @ = "wait" THEN "must" ELSE IF @ = "orphan" THEN "may" ELSE @]]]
Orphan(st) == [st EXCEPT !.n = 0, !.wt = [i \in DOMAIN @ |-> [@[i] EXCEPT !.s = IF @ = "wait" THEN "orphan" ELSE @]]]
ResetF(st, wk) ==
  LET s1 == [st EXCEPT !.at = FALSE]
  IN IF s1.n = 0 THEN s1 ELSE IF wk THEN Release(s1) ELSE Orphan(s1)
Add(st, w, s) == [st EXCEPT !.wt = Append(@, [w |-> w, s |-> s])]

Act(st, e) ==
  CASE e.op = "wcall" ->
         IF st.at THEN Add(st, e.w, "must")
         ELSE IF st.n + 1 >= st.thr
              THEN Release(Add([st EXCEPT !.at = ~st.auto], e.w, "wait"))
              ELSE Add([st EXCEPT !.n = @ + 1], e.w, "wait")
    [] e.op = "wret" -> [st EXCEPT !.wt = SelectSeq(@, LAMBDA x : x.w # e.w)]
    [] e.op = "reset" -> ResetF(st, e.wakeup)
    [] e.op = "auto" -> [st EXCEPT !.at = FALSE, !.auto = e.v]
    [] e.op = "thr" -> LET s1 == [st EXCEPT !.thr = e.v] IN IF e.v <= s1.n THEN ResetF(s1, TRUE) ELSE s1
    [] e.op = "cancel" -> [st EXCEPT !.n = IF @ > 0 THEN @ - 1 ELSE 0]
    [] OTHER -> st
Step(st, e) == Act(Tick(st, e.t), e)
Bad(st0, e) ==
  IF e.op \in {"crash", "hang"} THEN e.op ELSE
  LET st == Tick(st0, e.t) IN
  IF Late(st0, e.t) # "" THEN Late(st0, e.t)
  ELSE CASE e.op = "wret" ->
         IF \E i \in DOMAIN st.wt : st.wt[i].w = e.w /\ st.wt[i].s \in {"must", "may"} THEN "" ELSE "released-too-early"
    [] e.op = "obs" -> IF e.n # st.n THEN "num_waiters" ELSE IF e.thr # st.thr THEN "threshold" ELSE ""
    [] OTHER -> ""
Exp(st, e) == st
=============================================================================
