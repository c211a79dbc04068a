------------------------------ MODULE FifoReg ------------------------------
(* A register that stands for a queue in the device: what it holds after    *)
(* preloading, updating, writing, reading and predicting.                   *)
EXTENDS Integers, Sequences, TLC
\* cfg = [cap, mode: "auto" (auto-prediction) | "pred" (a predictor observes the bus) | "none", cmp]
\* cnt entries at the end were set and wait for update
Init0(cfg) == [cap |-> cfg.cap, mode |-> cfg.mode, cmp |-> cfg.cmp, q |-> <<>>, cnt |-> 0]
Full(st) == Len(st.q) >= st.cap
Push(st, v) == IF Full(st) THEN st ELSE [st EXCEPT !.q = Append(@, v)]
Pop(st) == IF st.q = <<>> THEN st ELSE [st EXCEPT !.q = Tail(@)]
Moves(st) == st.mode # "none"
\* what update writes: the waiting entries that are still there, oldest first
Waiting(st) == LET n == IF st.cnt > Len(st.q) THEN Len(st.q) ELSE st.cnt IN SubSeq(st.q, Len(st.q) - n + 1, Len(st.q))
Refused(st) == st.cnt > 0 \/ Full(st)
Step(st, e) ==
    CASE e.op = "set" -> IF Full(st) THEN st ELSE [Push(st, e.v) EXCEPT !.cnt = @ + 1]
      [] e.op = "update" -> [st EXCEPT !.cnt = 0]
      [] e.op = "write" -> IF Refused(st) \/ ~Moves(st) THEN st ELSE Push(st, e.v)
      [] e.op \in {"read", "mirror"} -> IF st.q = <<>> \/ ~Moves(st) THEN st ELSE Pop(st)
      [] e.op = "pred" -> IF e.kind = "pr" THEN Pop(st) ELSE Push(st, e.v)
      [] OTHER -> st
BusExp(st, e) == CASE e.op = "update" -> [i \in DOMAIN Waiting(st) |-> [w |-> TRUE, v |-> Waiting(st)[i]]]
                   [] e.op = "write" -> IF Refused(st) THEN <<>> ELSE <<[w |-> TRUE, v |-> e.v]>>
                   [] e.op \in {"read", "mirror"} -> IF st.q = <<>> THEN <<>> ELSE <<[w |-> FALSE, v |-> e.v]>>
                   [] OTHER -> <<>>
StatusOk(st, e) == CASE e.op = "write" -> ~Refused(st) [] e.op \in {"read", "mirror"} -> st.q # <<>> [] OTHER -> TRUE
\* a value read from the device is compared with the oldest entry
Warns(st, e) == /\ (e.op \in {"read", "mirror"} /\ Moves(st)) \/ (e.op = "pred" /\ e.kind = "pr")
                /\ st.cmp /\ st.q # <<>> /\ Head(st.q) # e.v
Bad(st, e) ==
    IF e.op \in {"crash", "hang"} THEN e.op
    ELSE LET t == Step(st, e) IN
         IF e.bus # BusExp(st, e) THEN "bus:" \o e.op
         ELSE IF e.ok # StatusOk(st, e) THEN "status:" \o e.op
         ELSE IF e.err # (e.op = "write" /\ Refused(st)) THEN "error"
         ELSE IF e.op = "read" /\ e.ok /\ e.val # e.v THEN "read-value"
         ELSE IF e.size # Len(t.q) THEN "size:" \o e.op
         ELSE IF e.get # (IF t.q = <<>> THEN 0 ELSE Head(t.q)) THEN "front:" \o e.op
         ELSE IF e.cap # st.cap THEN "capacity"
         ELSE IF e.warn # Warns(st, e) THEN "mismatch-warning"
         ELSE ""
Exp(st, e) == IF e.op \in {"crash", "hang"} THEN [st |-> st]
              ELSE [q |-> Step(st, e).q, bus |-> BusExp(st, e), warn |-> Warns(st, e), ok |-> StatusOk(st, e)]
=============================================================================
