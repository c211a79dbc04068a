------------------------------- MODULE Event -------------------------------
(***************************************************************************)
(* UVM events: trigger, persistent trigger, on/off level, data, time,      *)
(* callbacks with veto, reset with or without wake-up, waiter count.       *)
(* A waiting process has a status: "wait" (blocked), "must" (has to resume *)
(* in this time slot), "may" (level seen only within a slot: may resume),  *)
(* "orphan" (its event was reset without wake-up).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Init0(cfg) == [on |-> FALSE, ttime |-> 0, tdata |-> "None", nw |-> 0, cbs |-> <<>>,
               slot |-> -1, now |-> 0, wt |-> <<>>]

SetWt(st, F(_)) == [st EXCEPT !.wt = [i \in DOMAIN @ |-> [@[i] EXCEPT !.s = F(st.wt[i])]]]
Late(st, t) == IF t > st.now /\ \E i \in DOMAIN st.wt : st.wt[i].s = "must" THEN "waiter-not-woken" ELSE ""
Tick(st, t) == IF t <= st.now THEN st ELSE
  [SetWt(st, LAMBDA w : IF w.s = "may" THEN IF w.orph THEN "orphan" ELSE "wait" ELSE w.s) EXCEPT !.now = t]

IsTrig(w) == w.k \in {"trig", "ptrig"}
Fire(st, d) ==
  LET F(w) == IF IsTrig(w) THEN (IF w.orph THEN IF w.s = "must" THEN "must" ELSE "may" ELSE "must")
              ELSE IF w.k = "on" THEN "must"
              ELSE IF w.s = "must" THEN "may" ELSE w.s
  IN [SetWt(st, F) EXCEPT !.on = TRUE, !.tdata = d, !.ttime = st.now, !.nw = 0, !.slot = st.now]
ResetF(st, wk) ==
  LET F(w) == IF IsTrig(w) THEN IF w.s = "must" THEN "must" ELSE IF wk THEN (IF w.orph THEN w.s ELSE "must") ELSE "orphan"
              ELSE IF w.k = "off" THEN IF st.on THEN "must" ELSE w.s
              ELSE IF w.s = "must" THEN "may" ELSE w.s
      st1 == SetWt(st, F)
  IN [st1 EXCEPT !.on = FALSE, !.nw = 0, !.ttime = 0, !.slot = -1,
        !.wt = [i \in DOMAIN @ |-> IF IsTrig(@[i]) /\ ~wk THEN [@[i] EXCEPT !.orph = TRUE] ELSE @[i]]]

Vetoed(st) == \E i \in DOMAIN st.cbs : st.cbs[i].veto
Pre(st) == [i \in DOMAIN st.cbs |-> "pre:" \o st.cbs[i].id]
Post(st) == [i \in DOMAIN st.cbs |-> "post:" \o st.cbs[i].id]
Calls(st) == Pre(st) \o (IF Vetoed(st) THEN <<>> ELSE Post(st))
Immediate(st, k) == \/ k = "ptrig" /\ st.slot = st.now
                    \/ k = "on" /\ st.on
                    \/ k = "off" /\ ~st.on
Has(st, id) == {i \in DOMAIN st.cbs : st.cbs[i].id = id}

Act(st, e) ==
  CASE e.op = "trigger" -> IF Vetoed(st) THEN st ELSE Fire(st, e.d)
    [] e.op = "reset" -> ResetF(st, e.wakeup)
    [] e.op = "cancel" -> [st EXCEPT !.nw = IF @ > 0 THEN @ - 1 ELSE 0]
    [] e.op = "addcb" -> IF Has(st, e.id) # {} THEN st ELSE
         LET c == [id |-> e.id, veto |-> e.veto]
         IN [st EXCEPT !.cbs = IF e.append THEN Append(@, c) ELSE <<c>> \o @]
    [] e.op = "delcb" -> [st EXCEPT !.cbs = SelectSeq(@, LAMBDA c : c.id # e.id)]
    [] e.op = "wcall" ->
         IF Immediate(st, e.k)
         THEN [st EXCEPT !.wt = Append(@, [w |-> e.w, k |-> e.k, s |-> "must", orph |-> FALSE])]
         ELSE [st EXCEPT !.nw = @ + 1, !.wt = Append(@, [w |-> e.w, k |-> e.k, s |-> "wait", orph |-> FALSE])]
    [] e.op = "wret" -> [st EXCEPT !.wt = SelectSeq(@, LAMBDA x : x.w # e.w)]
    [] OTHER -> st
Step(st, e) == Act(Tick(st, e.t), e)

Bad(st0, e) ==
  IF e.op \in {"crash", "hang"} THEN e.op ELSE
  LET st == Tick(st0, e.t) IN
  IF Late(st0, e.t) # "" THEN Late(st0, e.t)
  ELSE CASE e.op = "trigger" -> IF e.calls # Calls(st) THEN "trigger.callbacks" ELSE ""
    [] e.op = "wret" ->
         IF \E i \in DOMAIN st.wt : st.wt[i].w = e.w /\ st.wt[i].s \in {"must", "may"}
         THEN IF e.d \notin {"-", st.tdata} THEN "wait-data" ELSE ""
         ELSE "woken-without-cause"
    [] e.op = "obs" ->
         IF e.on # st.on THEN "is_on"
         ELSE IF e.off # ~st.on THEN "is_off"
         ELSE IF e.nw # st.nw THEN "num_waiters"
         ELSE IF e.ttime # st.ttime THEN "trigger_time"
         ELSE IF e.tdata # st.tdata THEN "trigger_data" ELSE ""
    [] OTHER -> ""
Exp(st, e) == st
=============================================================================
