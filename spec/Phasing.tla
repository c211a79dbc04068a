------------------------------ MODULE Phasing -------------------------------
(***************************************************************************)
(* Phasing of a component tree.  cfg: common (phase names in order), doms  *)
(* (the domains), rts (for each domain its run-time phases in order)       *)
(*   new c p             component c created below p ("" = top)            *)
(*   dom c d hier        c, and if hier all components below it, moved to d*)
(*   start ph c t        c.phase_started(ph)                               *)
(*   in/out ph c t       the body of phase ph of c begins / returns        *)
(*                       (in.ex: the parent calls it in its own build)     *)
(*   tick ph c t         the body made progress                            *)
(*   raise/drop ph c n t objection of c to ph; drain ph c d: its drain time*)
(*   rte ph c t          c.phase_ready_to_end(ph)                          *)
(*   ended ph c t        c.phase_ended(ph)                                 *)
(*   waited ph at from t wait_for_state() called at from returned at t; at *)
(*                       is "begin" (state >= EXECUTING) or "done"         *)
(*   watch ph s          a callback is registered for ph, which is in s    *)
(*   state ph prev to t  the callback is told of a change of state         *)
(*   (start, in, rte and ended carry the state of the phase seen in them: s)*)
(*   end t               run_test() returned                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Idx(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Max2(a, b) == IF a > b THEN a ELSE b
Init0(cfg) == LET P == Range(cfg.common) \cup UNION {Range(cfg.rts[i]) : i \in DOMAIN cfg.rts} IN
  [obs |-> [p \in P |-> ""], common |-> cfg.common, rts |-> cfg.rts, doms |-> cfg.doms, P |-> P, comps |-> {}, par |-> <<>>, dom |-> <<>>,
   started |-> [p \in P |-> {}], in |-> [p \in P |-> {}], out |-> [p \in P |-> {}], fin |-> [p \in P |-> {}],
   cnt |-> [p \in P |-> <<>>], pend |-> [p \in P |-> {}], drain |-> [p \in P |-> <<>>],
   rel |-> [p \in P |-> 0], t0 |-> [p \in P |-> -1], te |-> [p \in P |-> -1]]
Common(st, p) == p \in Range(st.common)
IsTask(st, p) == p = "run" \/ ~Common(st, p)
D(st, p) == CHOOSE i \in DOMAIN st.rts : p \in Range(st.rts[i])
LastOf(r) == r[Len(r)]
Lasts(st) == {LastOf(st.rts[i]) : i \in DOMAIN st.rts}
\* the components that take part in p: everybody in the common phases, otherwise the domain's own
Members(st, p) == IF Common(st, p) THEN st.comps ELSE {c \in st.comps : st.dom[c] = st.doms[D(st, p)]}
\* the phases that must have ended before p starts
Before(st, p) ==
  IF Common(st, p) THEN LET i == Idx(st.common, p) IN
       IF i = 1 THEN {} ELSE IF st.common[i - 1] = "run" THEN {"run"} \cup Lasts(st) ELSE {st.common[i - 1]}
  ELSE LET r == st.rts[D(st, p)]
           i == Idx(r, p) IN
       IF i > 1 THEN {r[i - 1]} ELSE LET n == Idx(st.common, "run") IN {st.common[n - 1]}
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : \A z \in s : y >= z IN x
\* phases that end together with p
Sib(st, p) == IF p = "run" \/ p \in Lasts(st) THEN {"run"} \cup {q \in Lasts(st) : Members(st, q) # {}} ELSE {p}
\* the phases of a domain nobody is in take no time
RECURSIVE Closed(_, _), TE(_, _), StartTime(_, _)
Closed(st, p) == IF Members(st, p) # {} THEN st.te[p] >= 0
                 ELSE IF p \in Lasts(st) THEN Closed(st, "run") ELSE \A q \in Before(st, p) : Closed(st, q)
TE(st, p) == IF Members(st, p) # {} THEN st.te[p] ELSE IF p \in Lasts(st) THEN TE(st, "run") ELSE StartTime(st, p)
StartTime(st, p) == MaxOf({TE(st, q) : q \in Before(st, p)})
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Put(f, x, v) == (x :> v) @@ f
Outstanding(st, p, t) == \/ \E c \in DOMAIN st.cnt[p] : st.cnt[p][c] > 0
                         \/ \E d \in st.pend[p] : d.until > t
EndTime(st, p) == MaxOf(UNION {{st.t0[q], st.rel[q]} : q \in Sib(st, p)})
RECURSIVE Below(_, _)
Below(st, c) == {c} \cup UNION {Below(st, x) : x \in {y \in st.comps : st.par[y] = c}}
Kids(st, c) == {x \in st.comps : st.par[x] = c}
Ended(st, p) == st.fin[p] # {}
\* the states of a phase, and what its hooks see
Next1 == [DORMANT |-> {"SCHEDULED"}, SCHEDULED |-> {"SYNCING"}, SYNCING |-> {"STARTED"}, STARTED |-> {"EXECUTING"},
          EXECUTING |-> {"READY_TO_END", "ENDED"}, READY_TO_END |-> {"EXECUTING", "ENDED"}, ENDED |-> {"CLEANUP"},
          CLEANUP |-> {"DONE"}, DONE |-> {}]
Legal(st, p, a, b) == a \in DOMAIN Next1 /\ b \in Next1[a] /\ ~(a = "EXECUTING" /\ b = "READY_TO_END" /\ ~IsTask(st, p))
                      /\ ~(a = "EXECUTING" /\ b = "ENDED" /\ IsTask(st, p))
SeesState == [start |-> "STARTED", in |-> "EXECUTING", rte |-> "READY_TO_END", ended |-> "ENDED"]
BadState(st, e) ==
  CASE e.op \in DOMAIN SeesState -> IF e.s # SeesState[e.op] THEN "state.hook-" \o e.op
         ELSE IF st.obs[e.ph] \notin {"", e.s} THEN "state.missed" ELSE ""
    [] e.op = "state" ->
         \* the predecessor's callbacks, not the phase's own, are told that it was scheduled
         IF ~Legal(st, e.ph, e.prev, e.to) THEN "state.transition"
         ELSE IF e.prev # st.obs[e.ph] /\ ~(st.obs[e.ph] = "READY_TO_END" /\ e.prev = "EXECUTING")
                 /\ ~(st.obs[e.ph] = "DORMANT" /\ e.prev = "SCHEDULED") THEN "state.skipped"
         ELSE IF e.to = "STARTED" /\ e.t # StartTime(st, e.ph) THEN "state.time" ELSE ""
    [] e.op = "end" -> IF \E p \in st.P : st.obs[p] \notin {"", "DONE"} THEN "state.not-done" ELSE ""
    [] OTHER -> ""
BadEv(st, e) ==
  CASE e.op \in {"crash", "hang"} -> e.op
    [] e.op = "start" ->
         IF \E q \in Before(st, e.ph) : ~Closed(st, q) THEN "order.start"
         ELSE IF e.c \in st.started[e.ph] THEN "once.start"
         ELSE IF e.c \notin Members(st, e.ph) THEN "domain.foreign"
         ELSE IF IsTask(st, e.ph) /\ e.t # StartTime(st, e.ph) THEN "time.start" ELSE ""
    [] e.op = "in" ->
         IF \E q \in Before(st, e.ph) : ~Closed(st, q) THEN "order.previous-phase"
         ELSE IF e.c \in st.in[e.ph] THEN "once.twice"
         ELSE IF e.c \notin Members(st, e.ph) THEN "domain.foreign"
         ELSE IF Ended(st, e.ph) THEN "order.after-end"
         ELSE IF IsTask(st, e.ph) THEN (IF e.t # StartTime(st, e.ph) THEN "time.begin" ELSE "")
         ELSE IF e.ph = "build" THEN (IF st.par[e.c] # "" /\ st.par[e.c] \notin (IF e.ex THEN st.in["build"] ELSE st.out["build"]) THEN "tree.build-top-down" ELSE "")
         ELSE IF ~(Kids(st, e.c) \subseteq st.out[e.ph]) THEN "tree.bottom-up" ELSE ""
    [] e.op \in {"tick", "raise", "drop"} -> IF Closed(st, e.ph) /\ e.t > st.te[e.ph] THEN "killed.progress-after-end" ELSE ""
    [] e.op = "ended" ->
         IF e.c \in st.fin[e.ph] THEN "once.ended"
         ELSE IF st.in[e.ph] # Members(st, e.ph) THEN "once.missed"
         ELSE IF ~IsTask(st, e.ph) THEN (IF st.out[e.ph] # st.comps THEN "order.ended" ELSE "")
         ELSE IF Ended(st, e.ph) THEN ""
         ELSE IF \E q \in Sib(st, e.ph) : Outstanding(st, q, e.t) \/ st.t0[q] < 0 THEN "objection.ended-too-early"
         ELSE IF e.t # EndTime(st, e.ph) THEN "objection.ended-late" ELSE ""
    [] e.op = "waited" -> LET at == IF e.at = "begin" THEN st.t0[e.ph] ELSE st.te[e.ph] IN
         IF at < 0 \/ e.t # Max2(at, e.from) THEN "wait_for_state" ELSE ""
    [] e.op = "end" -> IF \E p \in st.P : ~Closed(st, p) THEN "once.not-run"
                       ELSE IF \E p \in st.P : st.in[p] # Members(st, p) THEN "once.missed"
                       ELSE IF \E p \in st.P : st.started[p] # st.fin[p] /\ p # "build" THEN "once.started" ELSE ""
    [] OTHER -> ""
Bad(st, e) == LET b == BadEv(st, e) IN IF b # "" THEN b ELSE BadState(st, e)
Step(st, e) ==
  CASE e.op = "new" -> [st EXCEPT !.comps = @ \cup {e.c}, !.par = Put(@, e.c, e.p),
                                  !.dom = Put(@, e.c, IF e.p = "" THEN "uvm" ELSE st.dom[e.p])]
    [] e.op = "dom" -> LET M == IF e.hier THEN Below(st, e.c) ELSE {e.c} IN
         [st EXCEPT !.dom = [c \in DOMAIN @ |-> IF c \in M THEN e.d ELSE @[c]]]
    [] e.op = "start" -> [st EXCEPT !.started[e.ph] = @ \cup {e.c}, !.t0[e.ph] = e.t, !.rel[e.ph] = Max2(@, e.t)]
    [] e.op = "in" -> [st EXCEPT !.in[e.ph] = @ \cup {e.c}]
    [] e.op = "out" -> [st EXCEPT !.out[e.ph] = @ \cup {e.c}]
    [] e.op = "drain" -> [st EXCEPT !.drain[e.ph] = Put(@, e.c, e.d)]
    [] e.op = "raise" /\ ~Ended(st, e.ph) ->
         [st EXCEPT !.cnt[e.ph] = Put(@, e.c, Get(@, e.c) + e.n), !.pend[e.ph] = {d \in @ : d.c # e.c \/ d.until <= e.t}]
    [] e.op = "drop" /\ ~Ended(st, e.ph) ->
         LET n == Get(st.cnt[e.ph], e.c) - e.n
             u == e.t + Get(st.drain[e.ph], e.c) IN
         IF n > 0 THEN [st EXCEPT !.cnt[e.ph] = Put(@, e.c, n)]
         ELSE [st EXCEPT !.cnt[e.ph] = Put(@, e.c, 0), !.rel[e.ph] = Max2(@, u),
                         !.pend[e.ph] = IF u > e.t THEN @ \cup {[c |-> e.c, until |-> u]} ELSE @]
    [] e.op = "ended" -> LET f == st.fin[e.ph] \cup {e.c} IN
         [st EXCEPT !.fin[e.ph] = f, !.te[e.ph] = IF f = Members(st, e.ph) THEN e.t ELSE @]
    [] e.op = "watch" -> [st EXCEPT !.obs[e.ph] = e.s]
    [] e.op = "state" -> [st EXCEPT !.obs[e.ph] = e.to]
    [] OTHER -> st
Exp(st, e) == IF e.op = "ended" THEN [at |-> EndTime(st, e.ph), cnt |-> st.cnt[e.ph]] ELSE IF e.op \in {"in", "start"} THEN [at |-> StartTime(st, e.ph), needs |-> Before(st, e.ph)] ELSE ""
=============================================================================
