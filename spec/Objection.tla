----------------------------- MODULE Objection -----------------------------
(***************************************************************************)
(* UVM objections: counts per object of a tree (object 1 is the top),      *)
(* propagation of raises and drops towards the top, drain times, the       *)
(* all_dropped notification, termination of a drain by a re-raise, clear,  *)
(* and processes waiting for raised / dropped / all_dropped.               *)
(*                                                                         *)
(* An object whose total fell to zero is "pending": its drop is held back  *)
(* (its parent still counts it) for its drain time, then all_dropped is    *)
(* called (which may itself take hd[o] time), then the drop propagates.    *)
(*                                                                         *)
(* Notifications are [k, o, s, c]: kind, object, source object, count.     *)
(* Synchronous ones are in the event of the call that caused them; those   *)
(* caused by a drain process are events of their own ("ahook").            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [ph |-> "none", cnt |-> 0, src |-> 0, due |-> 0]
Init0(cfg) ==
  LET n == Len(cfg.par) IN
  [n |-> n, par |-> cfg.par, prop |-> cfg.prop, hd |-> cfg.hd, comp |-> cfg.comp, cb |-> cfg.cb,
   drain |-> cfg.drain,
   src |-> [o \in 1 .. n |-> 0], tot |-> [o \in 1 .. n |-> 0],
   pend |-> [o \in 1 .. n |-> None],
   lastall |-> [o \in 1 .. n |-> {}],
   cball |-> <<>>,     \* all_dropped calls of a registered callback to come [o, s, c, due, must]
   cleared |-> FALSE, now |-> 0,
   exp |-> <<>>,       \* notifications that must follow immediately
   hk |-> <<>>,        \* (scratch) notifications produced by the current action
   wt |-> <<>>]        \* waiting processes [w, k, o, win, must]

Parent(st, o) == IF st.prop THEN st.par[o] ELSE 1

\* the object-level hook, then the component's own hook, then registered callbacks
Notify(st, k, o, s, c) ==
  LET a == [k |-> k, o |-> o, s |-> s, c |-> c]
      st1 == [st EXCEPT !.hk = @ \o <<a>> \o (IF st.comp[o] THEN <<[a EXCEPT !.k = "c_" \o k]>> ELSE <<>>)
                                 \o (IF st.cb THEN <<[a EXCEPT !.k = "b_" \o k]>> ELSE <<>>)]
  IN [st1 EXCEPT !.wt = [i \in DOMAIN @ |->
        IF @[i].k = k /\ @[i].o = o THEN [@[i] EXCEPT !.win = {st.now}, !.must = TRUE] ELSE @[i]]]

RECURSIVE RaiseF(_, _, _, _), DropF(_, _, _, _)
RaiseF(st, o, s, c) ==
  LET st1 == Notify([st EXCEPT !.tot[o] = @ + c, !.src[o] = IF s = o THEN @ + c ELSE @], "raised", o, s, c)
      p == st.pend[o]
      st2 == [st1 EXCEPT !.pend[o] = None,
                         !.cball = [i \in DOMAIN @ |-> IF @[i].o = o THEN [@[i] EXCEPT !.must = FALSE] ELSE @[i]],
                         !.wt = [i \in DOMAIN @ |-> IF @[i].k = "all_dropped" /\ @[i].o = o
                                                    THEN [@[i] EXCEPT !.must = FALSE] ELSE @[i]]]
      d == c - p.cnt
  IN IF p.ph = "none" THEN IF o = 1 THEN st1 ELSE RaiseF(st1, Parent(st, o), s, c)
     ELSE IF o = 1 \/ d = 0 THEN st2
     ELSE IF d > 0 THEN RaiseF(st2, Parent(st, o), s, d)
     ELSE DropF(st2, Parent(st, o), s, -d)
DropF(st, o, s, c) ==
  LET st1 == Notify([st EXCEPT !.tot[o] = @ - c, !.src[o] = IF s = o THEN @ - c ELSE @], "dropped", o, s, c)
  IN IF st1.tot[o] # 0 THEN IF o = 1 THEN st1 ELSE DropF(st1, Parent(st, o), s, c)
     ELSE [st1 EXCEPT !.pend[o] = [ph |-> "drain", cnt |-> c, src |-> s, due |-> st.now + st.drain[o]]]

Unbalanced(st, o, c) == c > st.tot[o] \/ c > st.src[o]

\* time moves to t
Late(st, t) ==
  IF t <= st.now THEN ""
  ELSE IF st.exp # <<>> THEN "notification-missing"
  ELSE IF \E o \in 1 .. st.n : st.pend[o].ph = "drain" /\ st.pend[o].due < t THEN "all_dropped-missing"
  ELSE IF \E o \in 1 .. st.n : st.pend[o].ph = "hook" /\ st.pend[o].due < t THEN "drop-not-propagated"
  ELSE IF \E i \in DOMAIN st.cball : st.cball[i].must /\ st.cball[i].due < t THEN "all_dropped-callback-missing"
  ELSE IF \E i \in DOMAIN st.wt : st.wt[i].must /\ st.wt[i].win # {} /\ \A w \in st.wt[i].win : w < t THEN "wait_for-not-woken"
  ELSE ""
Tick(st, t) == IF t <= st.now THEN st ELSE
  [st EXCEPT !.now = t, !.wt = [i \in DOMAIN @ |-> [@[i] EXCEPT !.win = {w \in @ : w >= t}]],
             !.lastall = [o \in DOMAIN @ |-> {w \in @[o] : w >= t}]]

\* the pending object whose drop reaches e.o now
Src(st, e) == {o \in 2 .. st.n : /\ st.pend[o].ph = "hook" /\ st.pend[o].due = e.t
                                 /\ st.pend[o].src = e.s /\ st.pend[o].cnt = e.c
                                 /\ Parent(st, o) = e.o}
CbDue(st, e) == {i \in DOMAIN st.cball : [o |-> e.o, s |-> e.s, c |-> e.c, due |-> e.t] = [o |-> st.cball[i].o,
                     s |-> st.cball[i].s, c |-> st.cball[i].c, due |-> st.cball[i].due]}
Hook(e) == [k |-> e.k, o |-> e.o, s |-> e.s, c |-> e.c]
Fold(st) == [st EXCEPT !.hk = <<>>]

Act(st0, e) ==      \* the state after e, with the notifications in hk
  LET st == Tick(st0, e.t) IN
  CASE e.op = "raise" -> IF e.c = 0 THEN [st EXCEPT !.cleared = FALSE]
                         ELSE RaiseF([st EXCEPT !.cleared = FALSE], e.o, e.o, e.c)
    [] e.op = "drop" -> IF e.c = 0 \/ Unbalanced(st, e.o, e.c) THEN st ELSE DropF(st, e.o, e.o, e.c)
    [] e.op = "set_drain" -> [st EXCEPT !.drain[e.o] = e.d]
    [] e.op = "clear" ->
         [st EXCEPT !.src = [o \in 1 .. st.n |-> 0], !.tot = [o \in 1 .. st.n |-> 0],
                    !.pend = [o \in 1 .. st.n |-> None], !.cleared = TRUE,
                    !.cball = [i \in DOMAIN @ |-> [@[i] EXCEPT !.must = FALSE]],
                    !.wt = [i \in DOMAIN @ |-> IF @[i].k # "all_dropped" THEN @[i]
                               ELSE IF @[i].o = 1 THEN [@[i] EXCEPT !.win = {st.now}, !.must = TRUE]
                               ELSE [@[i] EXCEPT !.must = FALSE]]]
    [] e.op = "ahook" /\ st.exp # <<>> -> [st EXCEPT !.exp = Tail(@)]
    [] e.op = "ahook" /\ e.k = "b_all_dropped" ->
         LET i == CHOOSE x \in CbDue(st, e) : TRUE
         IN [st EXCEPT !.cball = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
    [] e.op = "ahook" /\ e.k = "all_dropped" ->
         LET d == st.now + st.hd[e.o]
         IN [st EXCEPT !.pend[e.o] = IF e.o = 1 THEN None ELSE [@ EXCEPT !.ph = "hook", !.due = d],
                       !.lastall[e.o] = @ \cup {d},   \* a hook goes on when its drop is taken back: one window each
                       !.cball = IF st.cb THEN Append(@, [o |-> e.o, s |-> e.s, c |-> e.c, due |-> d, must |-> TRUE]) ELSE @,
                       !.exp = IF st.comp[e.o] THEN <<[Hook(e) EXCEPT !.k = "c_all_dropped"]>> ELSE <<>>,
                       !.wt = [i \in DOMAIN @ |-> IF @[i].k = "all_dropped" /\ @[i].o = e.o
                                   THEN [@[i] EXCEPT !.win = @ \cup {d}, !.must = TRUE] ELSE @[i]]]
    [] e.op = "ahook" ->
         LET o == CHOOSE x \in Src(st, e) : TRUE
             a == DropF([st EXCEPT !.pend[o] = None], e.o, e.s, e.c)
         IN [a EXCEPT !.exp = Tail(a.hk)]
    [] e.op = "wcall" ->
         [st EXCEPT !.wt = Append(@, [w |-> e.w, k |-> e.k, o |-> e.o,
              win |-> IF e.k = "all_dropped" THEN st.lastall[e.o] ELSE {},
              must |-> e.k = "all_dropped" /\ (\E w \in st.lastall[e.o] : w > st.now) /\ st.pend[e.o].ph = "hook"])]
    [] e.op = "wret" -> [st EXCEPT !.wt = SelectSeq(@, LAMBDA x : x.w # e.w)]
    [] OTHER -> st

Step(st, e) == Fold(Act(st, e))

Bad(st0, e) ==
  IF e.op \in {"crash", "hang"} THEN e.op ELSE
  LET lt == Late(st0, e.t)
      st == Tick(st0, e.t)
  IN
  IF lt # "" THEN lt
  ELSE IF st.exp # <<>> /\ (e.op # "ahook" \/ Hook(e) # Head(st.exp)) THEN "notification-order"
  ELSE CASE e.op = "raise" -> IF e.hooks # Act(st, e).hk THEN "raise.notifications" ELSE ""
    [] e.op = "drop" ->
         IF e.fatal # (e.c # 0 /\ Unbalanced(st, e.o, e.c) /\ ~st.cleared) THEN "drop.unbalanced"
         ELSE IF e.hooks # Act(st, e).hk THEN "drop.notifications" ELSE ""
    [] e.op = "ahook" /\ st.exp # <<>> -> ""
    [] e.op = "ahook" /\ e.k = "b_all_dropped" ->
         IF CbDue(st, e) = {} THEN "all_dropped-callback-unexpected" ELSE ""
    [] e.op = "ahook" /\ e.k = "all_dropped" ->
         IF st.pend[e.o].ph # "drain" \/ st.tot[e.o] # 0 THEN "all_dropped.unexpected"
         ELSE IF st.pend[e.o].due # e.t THEN "all_dropped.time"
         ELSE IF st.pend[e.o].src # e.s \/ st.pend[e.o].cnt # e.c THEN "all_dropped.arguments" ELSE ""
    [] e.op = "ahook" -> IF e.k # "dropped" \/ Src(st, e) = {} THEN "drain.propagation-unexpected" ELSE ""
    [] e.op = "obs" -> IF e.cnt # st.src THEN "count"
                       ELSE IF e.tot # st.tot THEN "total" ELSE ""
    [] e.op = "wret" ->
         IF \E i \in DOMAIN st.wt : st.wt[i].w = e.w /\ e.t \in st.wt[i].win THEN "" ELSE "wait_for-woken-early"
    [] e.op \in {"wcall", "set_drain", "clear"} -> ""
    [] e.op = "end" -> IF \E o \in 1 .. st.n : st.pend[o].ph # "none" THEN "drain-never-finished" ELSE ""
    [] OTHER -> "unknown-event"

Exp(st, e) == [src |-> st.src, tot |-> st.tot, pend |-> st.pend, now |-> st.now, exp |-> st.exp, wt |-> st.wt]
=============================================================================
