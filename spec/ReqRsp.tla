------------------------------- MODULE ReqRsp -------------------------------
(* A request/response channel: one bounded queue each way (spec Fifo), used *)
(* by masters and slaves through several exports.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
F == INSTANCE Fifo
\* cfg = [req: capacity, rsp: capacity] (0: unbounded); events as in Fifo with s: side, other: broadcasts of the other side
Init0(cfg) == [req |-> F!Init0([size |-> cfg.req, tap |-> "P"]), rsp |-> F!Init0([size |-> cfg.rsp, tap |-> "P"])]
Sides == {"req", "rsp"}
Bad(st, e) ==
    IF e.op \in {"crash", "hang"} THEN e.op
    ELSE IF e.op = "settled" THEN (IF F!Bad(st.req, e) # "" THEN "request." \o F!Bad(st.req, e)
                                   ELSE IF F!Bad(st.rsp, e) # "" THEN "response." \o F!Bad(st.rsp, e) ELSE "")
    ELSE IF e.op = "obs" THEN
        (IF \E s \in Sides : e[s].can_put # ~F!Full(st[s]) THEN "can_put"
         ELSE IF \E s \in Sides : e[s].can_peek # (st[s].q # <<>>) THEN "can_peek"
         ELSE IF \E s \in Sides : e[s].can_get # (st[s].q # <<>> /\ F!Pending(st[s], "get") = {}) THEN "can_get" ELSE "")
    ELSE IF e.op # "call" /\ e.other # <<>> THEN "broadcast-on-the-other-side"
    ELSE IF F!Bad(st[e.s], e) # "" THEN (IF e.s = "req" THEN "request." ELSE "response.") \o F!Bad(st[e.s], e) ELSE ""
Step(st, e) == IF e.op \in {"call", "ret", "nb"} THEN [st EXCEPT ![e.s] = F!Step(@, e)] ELSE st
Exp(st, e) == [req |-> st.req, rsp |-> st.rsp]
=============================================================================
