------------------------------- MODULE Fifo -------------------------------
(***************************************************************************)
(* TLM FIFO / mailbox: a bounded (size > 0) or unbounded (size = 0) queue  *)
(* shared by blocking and non-blocking putters, getters and peekers, with  *)
(* a put and a get analysis tap.                                           *)
(*                                                                         *)
(* Blocking operations are two events: call (the process enters) and ret   *)
(* (the linearization point).  Non-blocking operations are one event.      *)
(* Values are strings.  Events:                                            *)
(*   [op:"call", p, m:"put"|"get"|"peek", x]                               *)
(*   [op:"ret",  p, m, x, out:<<..>>, ap:<<..>>]   out: what the caller's  *)
(*                 output list received, x: the value returned / put       *)
(*   [op:"nb", m:"try_put"|"try_get"|"try_peek"|"write"|"flush",           *)
(*                 x, ok:"T"/"F", out, ap]                                 *)
(*   [op:"obs", used, empty, full, can_put, can_get, can_peek, size]       *)
(*   [op:"settled"]  nothing can run any more at this instant              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Init0(cfg) == [q |-> <<>>, size |-> cfg.size, tap |-> cfg.tap,
               blk |-> <<>>]     \* set of blocked calls, as a sequence of [p, m, x]

Full(st) == st.size > 0 /\ Len(st.q) >= st.size
B(b) == IF b THEN "T" ELSE "F"
Pending(st, m) == {k \in 1 .. Len(st.blk) : st.blk[k].m = m}
Mine(st, e) == {k \in 1 .. Len(st.blk) : st.blk[k].p = e.p}
Del(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Drop(st, e) == Del(st.blk, CHOOSE k \in Mine(st, e) : TRUE)

\* what the analysis taps must have broadcast during the event
\* ("P": only what is put is broadcast)
Taps(st, kind, xs) == IF st.tap = "T" \/ (st.tap = "P" /\ kind = "put") THEN [k \in 1 .. Len(xs) |-> kind \o ":" \o xs[k]] ELSE <<>>

\* the content after a flush; gets that are blocked never coexist with content
NbQ(st, e) ==
    CASE e.m \in {"try_put", "write"} -> IF Full(st) THEN st.q ELSE Append(st.q, e.x)
      [] e.m = "try_get" -> IF st.q = <<>> THEN st.q ELSE Tail(st.q)
      [] e.m = "flush"   -> <<>>
      [] OTHER -> st.q
NbOk(st, e) ==
    CASE e.m = "try_put" -> B(~Full(st))
      [] e.m \in {"try_get", "try_peek"} -> B(st.q # <<>>)
      [] OTHER -> "-"
NbOut(st, e) ==
    CASE e.m \in {"try_get", "try_peek"} -> IF st.q = <<>> THEN <<>> ELSE <<Head(st.q)>>
      [] OTHER -> <<>>
NbAp(st, e) ==
    CASE e.m \in {"try_put", "write"} -> IF Full(st) THEN <<>> ELSE Taps(st, "put", <<e.x>>)
      [] e.m = "try_get" -> IF st.q = <<>> THEN <<>> ELSE Taps(st, "get", <<Head(st.q)>>)
      [] e.m = "flush" -> Taps(st, "get", st.q)
      [] OTHER -> <<>>

Bad(st, e) ==
    CASE e.op = "call" -> IF Mine(st, e) # {} THEN "call.already-blocked" ELSE ""
      [] e.op = "ret" ->
           IF Mine(st, e) = {} THEN "ret.not-called"
           ELSE IF e.m = "put" THEN
                  IF Full(st) THEN "put.returned-while-full"
                  ELSE IF e.ap # Taps(st, "put", <<e.x>>) THEN "put.analysis" ELSE ""
           ELSE IF st.q = <<>> THEN e.m \o ".returned-while-empty"
           ELSE IF e.x # Head(st.q) THEN e.m \o ".not-the-oldest"
           ELSE IF e.out # <<Head(st.q)>> THEN e.m \o ".output-list"
           ELSE IF e.ap # (IF e.m = "get" THEN Taps(st, "get", <<e.x>>) ELSE <<>>)
                THEN e.m \o ".analysis" ELSE ""
      [] e.op = "nb" ->
           IF e.ok # NbOk(st, e) THEN e.m \o ".success"
           ELSE IF e.out # NbOut(st, e) THEN e.m \o ".value"
           ELSE IF e.ap # NbAp(st, e) THEN e.m \o ".analysis" ELSE ""
      [] e.op = "obs" ->
           IF e.used # ToString(Len(st.q)) THEN "obs.used"
           ELSE IF e.empty # B(st.q = <<>>) THEN "obs.is_empty"
           ELSE IF e.full # B(Full(st)) THEN "obs.is_full"
           ELSE IF e.can_put # B(~Full(st)) THEN "obs.can_put"
           ELSE IF e.can_peek # B(st.q # <<>>) THEN "obs.can_peek"
           ELSE IF e.can_get # B(st.q # <<>> /\ Pending(st, "get") = {}) THEN "obs.can_get"
           ELSE IF e.size # ToString(st.size) THEN "obs.size" ELSE ""
      [] e.op = "settled" ->
           IF ~Full(st) /\ Pending(st, "put") # {} THEN "put.blocked-though-not-full"
           ELSE IF st.q # <<>> /\ Pending(st, "get") # {} THEN "get.blocked-though-not-empty"
           ELSE IF st.q # <<>> /\ Pending(st, "peek") # {} THEN "peek.blocked-though-not-empty"
           ELSE ""
      [] OTHER -> e.op

Exp(st, e) == [q |-> st.q, full |-> Full(st), blk |-> st.blk]

Step(st, e) ==
    CASE e.op = "call" -> [st EXCEPT !.blk = Append(@, [p |-> e.p, m |-> e.m, x |-> e.x])]
      [] e.op = "ret" ->
           [st EXCEPT !.blk = Drop(st, e),
                      !.q = CASE e.m = "put" -> Append(@, e.x)
                              [] e.m = "get" -> Tail(@)
                              [] OTHER -> @]
      [] e.op = "nb" -> [st EXCEPT !.q = NbQ(st, e)]
      [] OTHER -> st
=============================================================================
