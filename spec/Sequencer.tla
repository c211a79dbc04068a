----------------------------- MODULE Sequencer -----------------------------
(***************************************************************************)
(* A sequencer, its running sequences and its driver: arbitration,         *)
(* item handshake and response routing.  Runs of sequences are numbered    *)
(* (a restarted sequence object is a new run).  Times are slots: every     *)
(* obligation must be met before time advances (Late).                     *)
(* Events (t: time):                                                       *)
(*  run s parent       a sequence has started to execute its body          *)
(*  exit s / exited s  its body ended / start() returned                   *)
(*  req s / grant s    start_item called / returned                        *)
(*  send s item tid / fin s finish_item called / returned                    *)
(*  rel s v            relevance of run s changed                          *)
(*  arb mode           "fifo" or "random"                                  *)
(*  dcall k / dret k item own err   driver call next/try/peek/get          *)
(*  done rsp           item_done, optionally with a response               *)
(*  rsp s tid v err hand   a response is sent to run s's request           *)
(*  rcall s g tid / rret s g v      get_response                           *)
(*  icall s g tid / iret s g        wait_for_item_done                     *)
(*  depth s n, errdis s v, handler s v, clear s                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Run0 == [st |-> "idle", rel |-> TRUE, relT |-> -1, relN |-> -1, qN |-> -1,
         rq |-> <<>>, depth |-> 8, errdis |-> FALSE, handler |-> FALSE, life |-> "up", par |-> 0]
Init0(cfg) == [now |-> 0, n |-> 0, q |-> <<>>, runs |-> <<>>, pend |-> "", pendN |-> -1,
               sel |-> 0, item |-> "", called |-> FALSE, arb |-> "fifo", arbT |-> -1, arbN |-> -1,
               gets |-> <<>>, iw |-> {}, itid |-> -1, nreq |-> 0, nrsp |-> 0]

S(st, e) == st.runs[e.s]
Blocking == {"next", "peek", "get"}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE IdxOf(_, _)
IdxOf(q, s) == IF q = <<>> THEN 0 ELSE IF Head(q) = s THEN 1 ELSE LET r == IdxOf(Tail(q), s) IN IF r = 0 THEN 0 ELSE r + 1
Without(q, s) == SelectSeq(q, LAMBDA x : x # s)

\* run s has been relevant ever since event number from (or since before this slot)
Stable(st, s, from) == LET r == st.runs[s] IN r.rel /\ (r.relT < st.now \/ r.relN < from)
\* run s may have been relevant at some moment since from
MaybeRel(st, s, from) == LET r == st.runs[s] IN r.rel \/ (r.relT = st.now /\ r.relN >= from)

MatchIx(rq, tid) == {i \in DOMAIN rq : tid = -1 \/ rq[i].tid = tid}
Least(S0) == CHOOSE i \in S0 : \A j \in S0 : i <= j
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

Late(st) ==
  IF st.sel # 0 /\ st.runs[st.sel].st = "sent" /\ st.pend # "" THEN "handshake.item-not-delivered"
  ELSE IF \E s \in DOMAIN st.runs : st.runs[s].st = "done" THEN "handshake.finish_item-not-released"
  ELSE IF st.pend \in Blocking /\ st.sel = 0 /\ \E i \in DOMAIN st.q : st.runs[st.q[i]].rel THEN "arb.eligible-not-granted"
  ELSE IF st.pend = "try" THEN "handshake.try_next_item-blocks"
  ELSE IF \E i \in DOMAIN st.gets : MatchIx(st.runs[st.gets[i].s].rq, st.gets[i].tid) # {} THEN "rsp.not-delivered"
  ELSE IF \E w \in st.iw : w.ok THEN "handshake.wait_for_item_done-not-released"
  ELSE ""
Tick(st, t) == [st EXCEPT !.now = IF t > @ THEN t ELSE @, !.n = @ + 1]

Deliver(st, s, tid, v) ==
  LET r == st.runs[s] IN
  IF r.life \in {"gone"} \/ r.handler \/ (r.depth # -1 /\ Len(r.rq) >= r.depth) THEN st
  ELSE [st EXCEPT !.runs[s].rq = Append(@, [tid |-> tid, v |-> v])]
DeliverErr(st, s) == LET r == st.runs[s] IN
  IF r.life = "gone" \/ r.handler THEN 0
  ELSE IF r.depth # -1 /\ Len(r.rq) >= r.depth /\ ~r.errdis THEN 1 ELSE 0
DeliverHand(st, s, v) == LET r == st.runs[s] IN IF r.life # "gone" /\ r.handler THEN <<v>> ELSE <<>>
Ambig(st, s) == st.runs[s].life = "ending"

GrantBad(st, e) ==
  LET r == S(st, e)
      from == Max(st.pendN, r.qN)
      i == IdxOf(st.q, e.s)
  IN IF r.st # "wait" THEN "arb.granted-without-request"
     ELSE IF st.pend = "" THEN "arb.granted-without-driver-request"
     ELSE IF st.sel # 0 THEN "arb.two-granted"
     ELSE IF ~MaybeRel(st, e.s, from) THEN "arb.granted-while-irrelevant"
     ELSE IF st.arb = "fifo" /\ (st.arbT < st.now \/ st.arbN < from)
             /\ \E j \in 1 .. i - 1 : Stable(st, st.q[j], from) THEN "arb.not-the-longest-waiting"
     ELSE ""

DretBad(st, e) ==
  IF st.pend # e.k THEN "driver.return"
  ELSE IF e.err # (IF st.called /\ e.k \in {"next", "try"} THEN 1
                   ELSE IF e.k = "try" /\ e.item = "none" /\ st.sel # 0 THEN 1 ELSE 0) THEN "handshake.error-report"
  ELSE IF e.item = "none" THEN
     IF e.k # "try" THEN "handshake.no-item"
     ELSE IF st.called \/ st.sel # 0 THEN ""
     ELSE IF \E i \in DOMAIN st.q : Stable(st, st.q[i], st.pendN) /\ st.runs[st.q[i]].qN < st.pendN
          THEN "handshake.try_next_item-missed-a-request" ELSE ""
  ELSE IF st.sel = 0 THEN "handshake.item-without-grant"
  ELSE IF st.runs[st.sel].st # "sent" THEN "handshake.item-before-finish_item"
  ELSE IF e.item # st.item THEN "handshake.wrong-item"
  ELSE IF e.own # st.sel THEN "handshake.item-context"
  ELSE ""

RspBad(st, s, e) ==
  IF Ambig(st, s) THEN "" ELSE
  IF e.err # DeliverErr(st, s) THEN "rsp.overflow-report"
  ELSE IF e.hand # DeliverHand(st, s, e.v) THEN "rsp.handler" ELSE ""

RretBad(st, e) ==
  LET ix == MatchIx(S(st, e).rq, e.tid) IN
  IF ix = {} THEN "rsp.delivered-without-response"
  ELSE LET m == S(st, e).rq[Least(ix)] IN
       IF e.v # m.v THEN "rsp.wrong-response" ELSE IF e.rtid # m.tid THEN "rsp.wrong-id" ELSE ""

Bad(st0, e) ==
  IF e.op \in {"crash", "hang"} THEN e.op
  ELSE IF e.t > st0.now /\ Late(st0) # "" THEN Late(st0)
  ELSE LET st == Tick(st0, e.t) IN
  CASE e.op = "grant" -> GrantBad(st, e)
    [] e.op = "dret" -> DretBad(st, e)
    [] e.op = "fin" -> IF S(st, e).st # "done" THEN "handshake.finish_item-before-item_done" ELSE ""
    [] e.op = "iret" -> IF \E w \in st.iw : w.g = e.g /\ w.ok THEN "" ELSE "handshake.wait_for_item_done-too-early"
    [] e.op = "rsp" -> RspBad(st, e.s, e)
    [] e.op = "done" -> IF e.v # "-" THEN RspBad(st, st.sel, e) ELSE ""
    [] e.op = "rret" -> RretBad(st, e)
    [] e.op = "obs" ->
         IF e.nreq # st.nreq THEN "obs.num_reqs_sent"
         ELSE IF e.nrsp # st.nrsp THEN "obs.num_rsps_received"
         ELSE IF e.cur # (IF st.sel # 0 /\ st.runs[st.sel].st = "sent" THEN st.item ELSE "none") THEN "obs.current_item"
         ELSE ""
    [] OTHER -> ""

AfterDone(st) == [st EXCEPT !.iw = {[w EXCEPT !.ok = @ \/ (w.s = st.sel /\ w.tid \in {-1, st.itid})] : w \in @},
                            !.runs[st.sel].st = "done", !.sel = 0, !.item = "", !.called = FALSE]
Act(st, e) ==
  CASE e.op = "run" -> [st EXCEPT !.runs = Append(@, [Run0 EXCEPT !.par = e.parent])]
    [] e.op = "exit" -> [st EXCEPT !.runs[e.s].life = "ending", !.gets = SelectSeq(@, LAMBDA g : g.s # e.s),
                                 !.iw = {w \in @ : w.s # e.s}]
    [] e.op = "exited" -> [st EXCEPT !.runs[e.s].life = "gone"]
    [] e.op = "req" -> [st EXCEPT !.runs[e.s].st = "wait", !.runs[e.s].qN = st.n, !.q = Append(@, e.s)]
    [] e.op = "grant" -> [st EXCEPT !.runs[e.s].st = "granted", !.q = Without(@, e.s), !.sel = e.s]
    [] e.op = "send" -> [st EXCEPT !.runs[e.s].st = "sent", !.item = e.item, !.itid = e.tid, !.nreq = @ + 1]
    [] e.op = "fin" -> [st EXCEPT !.runs[e.s].st = "idle"]
    [] e.op = "rel" -> [st EXCEPT !.runs[e.s].rel = e.v, !.runs[e.s].relT = st.now, !.runs[e.s].relN = st.n]
    [] e.op = "arb" -> [st EXCEPT !.arb = e.mode, !.arbT = st.now, !.arbN = st.n]
    [] e.op = "dcall" -> [st EXCEPT !.pend = e.k, !.pendN = st.n]
    [] e.op = "dret" -> LET s1 == [st EXCEPT !.pend = "",
                                      !.called = @ \/ e.k = "next" \/ (e.k = "try" /\ st.sel # 0)]
                        IN IF e.k = "get" THEN AfterDone(s1) ELSE s1
    [] e.op = "done" -> LET s1 == AfterDone(st) IN
         IF e.v = "-" THEN s1 ELSE [Deliver(s1, st.sel, e.tid, e.v) EXCEPT !.nrsp = @ + 1]
    [] e.op = "rsp" -> [Deliver(st, e.s, e.tid, e.v) EXCEPT !.nrsp = @ + 1]
    [] e.op = "rcall" -> [st EXCEPT !.gets = Append(@, [s |-> e.s, g |-> e.g, tid |-> e.tid])]
    [] e.op = "icall" -> [st EXCEPT !.iw = @ \cup {[s |-> e.s, g |-> e.g, tid |-> e.tid, ok |-> FALSE]}]
    [] e.op = "iret" -> [st EXCEPT !.iw = {w \in @ : w.g # e.g}]
    [] e.op = "rret" ->
         [st EXCEPT !.gets = SelectSeq(@, LAMBDA g : g.g # e.g),
                    !.runs[e.s].rq = Del(@, Least(MatchIx(@, e.tid)))]
    [] e.op = "depth" -> [st EXCEPT !.runs[e.s].depth = e.n]
    [] e.op = "errdis" -> [st EXCEPT !.runs[e.s].errdis = e.v]
    [] e.op = "handler" -> [st EXCEPT !.runs[e.s].handler = e.v]
    [] e.op = "clear" -> [st EXCEPT !.runs[e.s].rq = <<>>]
    [] OTHER -> st
Step(st, e) == Act(Tick(st, e.t), e)
Exp(st, e) == st
=============================================================================
