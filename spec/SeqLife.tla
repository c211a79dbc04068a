------------------------------ MODULE SeqLife ------------------------------
(***************************************************************************)
(* Life of sequences: hooks, states, parents, automatic objection, kill.   *)
(* A run is one start() of a sequence object.  Events (t: time):           *)
(*   start s o par pre prio apo sp     start() called                      *)
(*   in s h st / out s h               entry/exit of an async hook         *)
(*   pdo p h item                      sync hook of run p (as a parent, or *)
(*                                     for its own item): pre_do/mid_do/   *)
(*                                     post_do; item: TRUE for an item     *)
(*   obj s k                           starting phase raised/dropped       *)
(*   ret s st                          start() returned                    *)
(*   ireq s / ifin s                   start_item called / finish_item ret *)
(*   wcall w o mask / wret w           wait_for_sequence_state             *)
(*   kill s / killhook s / killed s    kill()                              *)
(*   obs s st prio depth sqr                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CREATED == 1  PRESTART == 2  PREBODY == 4  BODY == 8  POSTBODY == 16  POSTSTART == 32  ENDED == 64
STOPPED == 128  FINISHED == 256
Range(q) == {q[i] : i \in DOMAIN q}

\* what a run has to do, in order: [k: kind, h: hook, st: state in which it happens]
Prog(pre, par, ob) ==
  LET ps == IF pre THEN PREBODY ELSE PRESTART IN
  (IF ob THEN <<[k |-> "obj", h |-> "raise", st |-> PRESTART]>> ELSE <<>>)
  \o <<[k |-> "hook", h |-> "pre_start", st |-> PRESTART]>>
  \o (IF pre THEN <<[k |-> "hook", h |-> "pre_body", st |-> PREBODY]>> ELSE <<>>)
  \o (IF par > 0 THEN <<[k |-> "pdo", h |-> "pre_do", st |-> ps], [k |-> "pdo", h |-> "mid_do", st |-> ps]>> ELSE <<>>)
  \o <<[k |-> "hook", h |-> "body", st |-> BODY]>>
  \o (IF par > 0 THEN <<[k |-> "pdo", h |-> "post_do", st |-> ENDED]>> ELSE <<[k |-> "tau", h |-> "", st |-> ENDED]>>)
  \o (IF pre THEN <<[k |-> "hook", h |-> "post_body", st |-> POSTBODY]>> ELSE <<>>)
  \o <<[k |-> "hook", h |-> "post_start", st |-> POSTSTART]>>
  \o (IF ob THEN <<[k |-> "obj", h |-> "drop", st |-> POSTSTART]>> ELSE <<>>)
  \o <<[k |-> "ret", h |-> "", st |-> FINISHED]>>

Init0(cfg) == [now |-> 0, runs |-> <<>>, wt |-> <<>>, os |-> [o \in 1 .. 4 |-> CREATED]]

R(st, s) == st.runs[s]
Live(st, s) == st.runs[s].life = "run"
\* the next observable step; a "tau" only changes the state
Skip(p) == IF p # <<>> /\ Head(p).k = "tau" THEN Tail(p) ELSE p
Cur(st, o) == st.os[o]
\* states run s passes through on the way to its next observable step
Ahead(r) == IF r.inh # "" \/ r.life # "run" THEN {}
            ELSE {r.todo[i].st : i \in 1 .. IF r.todo # <<>> /\ Head(r.todo).k = "tau" THEN 2 ELSE IF r.todo # <<>> THEN 1 ELSE 0}
ActiveRuns(st, o) == {s \in DOMAIN st.runs : st.runs[s].o = o /\ Live(st, s)}
Possible(st, o) == {st.os[o]} \cup UNION {Ahead(st.runs[s]) : s \in ActiveRuns(st, o)}
RECURSIVE Desc(_, _)
Desc(st, s) == LET kids == {k \in DOMAIN st.runs : st.runs[k].par = s /\ Live(st, k)}
               IN {s} \cup UNION {Desc(st, k) : k \in kids}

Late(st) ==
  IF \E s \in DOMAIN st.runs : Live(st, s) /\ st.runs[s].inh = "" THEN "life.stuck-between-hooks"
  ELSE IF \E i \in DOMAIN st.wt : st.wt[i].seen THEN "state.waiter-not-woken" ELSE ""
Tick(st, t) == [st EXCEPT !.now = IF t > @ THEN t ELSE @]

\* object o reaches state x
Reach(st, o, x) == [st EXCEPT !.os[o] = x,
  !.wt = [i \in DOMAIN @ |-> IF @[i].o = o /\ x \in Range(@[i].mask) THEN [@[i] EXCEPT !.seen = TRUE] ELSE @[i]]]
\* run s passes through ENDED, which a waiter that came while it was about to may have come too late for
Ended(st, s) == LET o == R(st, s).o IN
  [st EXCEPT !.os[o] = ENDED,
   !.wt = [i \in DOMAIN @ |-> IF @[i].o # o THEN @[i] ELSE IF s \in @[i].amb THEN [@[i] EXCEPT !.amb = @ \ {s}]
                              ELSE IF ENDED \in Range(@[i].mask) THEN [@[i] EXCEPT !.seen = TRUE] ELSE @[i]]]
\* run s takes its next step
Take(st, s) ==
  LET r == R(st, s)
      s1 == IF Head(r.todo).k = "tau" THEN Ended(st, s) ELSE st
      p == Skip(r.todo)
  IN [Reach(s1, r.o, Head(p).st) EXCEPT !.runs[s].todo = Tail(p)]
NextIs(st, s, k, h) == LET p == Skip(R(st, s).todo) IN p # <<>> /\ Head(p).k = k /\ Head(p).h = h
Kids(st, p, k, h) == {s \in DOMAIN st.runs : st.runs[s].par = p /\ Live(st, s) /\ st.runs[s].inh = "" /\ NextIs(st, s, k, h)}

Bad(st0, e) ==
  IF e.op \in {"crash", "hang"} THEN e.op
  ELSE IF e.t > st0.now /\ Late(st0) # "" THEN Late(st0)
  ELSE LET st == Tick(st0, e.t) IN
  CASE e.op = "in" ->
         IF ~Live(st, e.s) THEN "kill.hook-after-kill"
         ELSE IF R(st, e.s).inh # "" \/ ~NextIs(st, e.s, "hook", e.h) THEN "life.hook-order"
         ELSE IF e.st # Head(Skip(R(st, e.s).todo)).st THEN "state.in-hook" ELSE ""
    [] e.op = "out" -> IF ~Live(st, e.s) THEN "kill.progress-after-kill" ELSE ""
    [] e.op = "pdo" ->
         IF e.item THEN
            IF ~Live(st, e.p) THEN "kill.hook-after-kill"
            ELSE IF R(st, e.p).it # (CASE e.h = "pre_do" -> "req" [] e.h = "mid_do" -> "pre" [] OTHER -> "mid") THEN "life.item-hook-order" ELSE ""
         ELSE IF Kids(st, e.p, "pdo", e.h) = {} THEN "life.parent-hook-order"
         ELSE IF e.s # 0 /\ e.s \notin Kids(st, e.p, "pdo", e.h) THEN "life.parent-hook-argument" ELSE ""
    [] e.op = "obj" ->
         IF e.k = "drop" /\ ~Live(st, e.s) THEN IF R(st, e.s).raised THEN "" ELSE "objection.drop"
         ELSE IF ~NextIs(st, e.s, "obj", e.k) THEN "objection." \o e.k ELSE ""
    [] e.op = "ret" ->
         IF R(st, e.s).life = "killed" THEN IF e.st # STOPPED /\ Cur(st, R(st, e.s).o) = STOPPED THEN "state.after-kill"
                                            ELSE IF R(st, e.s).raised THEN "objection.not-dropped-on-kill" ELSE ""
         ELSE IF R(st, e.s).inh # "" \/ ~NextIs(st, e.s, "ret", "") THEN "life.returned-early"
         ELSE IF e.st # FINISHED THEN "state.finished" ELSE ""
    [] e.op = "wret" ->
         IF \E i \in DOMAIN st.wt : st.wt[i].w = e.w /\ (st.wt[i].seen \/ Range(st.wt[i].mask) \cap Possible(st, st.wt[i].o) # {})
         THEN "" ELSE "state.woken-early"
    [] e.op = "killhook" -> IF e.s \in st.runs[e.root].dying THEN "" ELSE "kill.do_kill"
    [] e.op = "killed" -> IF st.runs[e.s].dying # {} THEN "kill.do_kill-missing"
                          ELSE IF \E k \in Desc(st, e.s) : st.runs[k].raised THEN "objection.not-dropped-on-kill" ELSE ""
    [] e.op = "ifin" -> IF ~Live(st, e.s) THEN "kill.progress-after-kill"
                        ELSE IF R(st, e.s).it # "post" THEN "life.item-hook-order" ELSE ""
    [] e.op = "obs" ->
         IF e.st \notin Possible(st, R(st, e.s).o) THEN "state.get_sequence_state"
         ELSE IF Live(st, e.s) /\ e.prio # R(st, e.s).prio THEN "life.priority"
         ELSE IF Live(st, e.s) /\ e.depth # R(st, e.s).depth THEN "life.depth"
         ELSE IF Live(st, e.s) /\ ~e.sqr THEN "life.sequencer" ELSE ""
    [] OTHER -> ""

Act(st, e) ==
  CASE e.op = "start" ->
         LET par == e.par IN
         Reach([st EXCEPT !.runs = Append(@, [o |-> e.o, par |-> par, life |-> "run", inh |-> "", it |-> "",
               todo |-> Prog(e.pre, par, e.apo /\ e.sp), raised |-> FALSE, dying |-> {},
               prio |-> IF e.prio >= 0 THEN e.prio ELSE IF par > 0 THEN st.runs[par].prio ELSE 100,
               depth |-> IF par > 0 THEN st.runs[par].depth + 1 ELSE 1])], e.o, PRESTART)
    [] e.op = "in" -> [Take(st, e.s) EXCEPT !.runs[e.s].inh = e.h]
    [] e.op = "out" -> [st EXCEPT !.runs[e.s].inh = ""]
    [] e.op = "pdo" ->
         IF e.item THEN [st EXCEPT !.runs[e.p].it = CASE e.h = "pre_do" -> "pre" [] e.h = "mid_do" -> "mid" [] OTHER -> "post"]
         ELSE Take(st, IF e.s # 0 THEN e.s ELSE CHOOSE s \in Kids(st, e.p, "pdo", e.h) : TRUE)
    [] e.op = "obj" -> [IF Live(st, e.s) THEN Take(st, e.s) ELSE st EXCEPT !.runs[e.s].raised = (e.k = "raise")]
    [] e.op = "ret" -> IF R(st, e.s).life = "killed" THEN [st EXCEPT !.runs[e.s].life = "gone"]
                       ELSE [Take(st, e.s) EXCEPT !.runs[e.s].life = "gone"]
    [] e.op = "ireq" -> [st EXCEPT !.runs[e.s].it = "req"]
    [] e.op = "wcall" -> [st EXCEPT !.wt = Append(@, [w |-> e.w, o |-> e.o, mask |-> e.mask,
                            amb |-> {s \in ActiveRuns(st, e.o) : st.runs[s].inh = "" /\ st.runs[s].todo # <<>> /\ Head(st.runs[s].todo).k = "tau"},
                            seen |-> /\ Cur(st, e.o) \in Range(e.mask)
                                     /\ \A s \in ActiveRuns(st, e.o) : st.runs[s].inh # ""])]
    [] e.op = "wret" -> [st EXCEPT !.wt = SelectSeq(@, LAMBDA x : x.w # e.w)]
    [] e.op = "kill" ->
         LET d == Desc(st, e.s)
             s1 == [st EXCEPT !.runs = [s \in DOMAIN @ |-> IF s \in d THEN [@[s] EXCEPT !.life = "killed", !.inh = ""] ELSE @[s]]]
             RECURSIVE All(_, _)
             All(x, q) == IF q = {} THEN x ELSE LET k == CHOOSE z \in q : TRUE IN All(Reach(x, x.runs[k].o, STOPPED), q \ {k})
         IN [All(s1, d) EXCEPT !.runs[e.s].dying = d]
    [] e.op = "killhook" -> [st EXCEPT !.runs[e.root].dying = @ \ {e.s}]
    [] OTHER -> st
Step(st, e) == Act(Tick(st, e.t), e)
Exp(st, e) == st
=============================================================================
