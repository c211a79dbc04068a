------------------------------ MODULE MC_Fifo ------------------------------
(* The FIFO design, exhaustively: every interleaving of blocked processes   *)
(* and non-blocking calls within the constants.  h is the stimulus history  *)
(* (hidden by VIEW), puts/gets are history variables of the property.       *)
EXTENDS Fifo, Json, TLC
CONSTANTS Sizes, Procs, MaxPuts, MaxOps
VARIABLES st, puts, gets, h
vars == <<st, puts, gets, h>>
View == <<st, puts, gets>>

Init == /\ \E s \in Sizes : st = Init0([size |-> s, tap |-> "T"])
        /\ puts = <<>> /\ gets = <<>> /\ h = <<[do |-> "size", n |-> st.size]>>

Item == ToString(Len(puts) + Cardinality(Pending(st, "put")))

DoNb(m) == LET e0 == [op |-> "nb", m |-> m, x |-> Item]
               e == e0 @@ [ok |-> NbOk(st, e0), out |-> NbOut(st, e0), ap |-> NbAp(st, e0)]
           IN /\ Bad(st, e) = ""
              /\ (m = "try_put" => Len(puts) + Cardinality(Pending(st, "put")) < MaxPuts)
              /\ st' = Step(st, e)
              /\ puts' = IF m = "try_put" /\ ~Full(st) THEN Append(puts, e.x) ELSE puts
              /\ gets' = CASE m = "try_get" -> gets \o e.out
                           [] m = "flush" -> gets \o st.q
                           [] OTHER -> gets
              /\ h' = Append(h, [do |-> m, p |-> 0])

Call(p, m) == LET e == [op |-> "call", p |-> p, m |-> m, x |-> IF m = "put" THEN Item ELSE ""]
              IN /\ Bad(st, e) = ""
                 /\ (m = "put" => Len(puts) + Cardinality(Pending(st, "put")) < MaxPuts)
                 /\ st' = Step(st, e) /\ UNCHANGED <<puts, gets>>
                 /\ h' = Append(h, [do |-> m, p |-> p])

Ret(k) == LET b == st.blk[k]
              x == IF b.m = "put" THEN b.x ELSE Head(st.q)
              e == [op |-> "ret", p |-> b.p, m |-> b.m, x |-> x,
                    out |-> IF b.m = "put" THEN <<>> ELSE <<x>>,
                    ap |-> IF b.m = "peek" THEN <<>> ELSE Taps(st, b.m, <<x>>)]
          IN /\ (b.m # "put" => st.q # <<>>)
             /\ Bad(st, e) = ""
             /\ st' = Step(st, e)
             /\ puts' = IF b.m = "put" THEN Append(puts, x) ELSE puts
             /\ gets' = IF b.m = "get" THEN Append(gets, x) ELSE gets
             /\ UNCHANGED h

Next == \/ \E m \in {"try_put", "try_get", "try_peek", "flush"} : DoNb(m)
        \/ \E p \in Procs, m \in {"put", "get", "peek"} : Call(p, m)
        \/ \E k \in 1 .. Len(st.blk) : Ret(k)

Bound == Len(h) <= MaxOps
Emit == h' = h \/ PrintT("@@GEN " \o ToJson(h'))

\* ---- what the design guarantees, stated without reference to the actions ----
FifoExactlyOnce == gets \o st.q = puts               \* order, no loss, no duplication
Bounded == st.size > 0 => Len(st.q) <= st.size
\* a process is blocked at rest only for a reason (checked as: some Ret is enabled otherwise)
Progress == \A k \in 1 .. Len(st.blk) :
              (st.blk[k].m = "put" /\ ~Full(st)) \/ (st.blk[k].m # "put" /\ st.q # <<>>)
                 => ENABLED Ret(k)
=============================================================================
