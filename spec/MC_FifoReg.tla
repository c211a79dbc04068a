----------------------------- MODULE MC_FifoReg -----------------------------
(* A FIFO register in front of a device FIFO of the same capacity: accesses *)
(* through the register keep both the same, apart from what waits for       *)
(* update, and nothing read from the device is unexpected.                  *)
EXTENDS FifoReg, Json
CONSTANTS Caps, Vals, MaxOps
VARIABLES st, h, dev, warned
View == <<st, dev, warned>>
Init == \E c \in Caps, m \in {"auto", "pred"} :
    /\ st = Init0([cap |-> c, mode |-> m, cmp |-> TRUE]) /\ h = <<>> /\ dev = <<>> /\ warned = FALSE
RECURSIVE Apply(_, _)
Apply(d, bus) == IF bus = <<>> THEN d ELSE Apply(IF Head(bus).w THEN Append(d, Head(bus).v) ELSE Tail(d), Tail(bus))
Do(e) == /\ st' = Step(st, e) /\ dev' = Apply(dev, BusExp(st, e)) /\ warned' = (warned \/ Warns(st, e)) /\ h' = Append(h, e)
Next == \/ \E v \in Vals : Do([op |-> "set", v |-> v]) \/ Do([op |-> "write", v |-> v])
        \/ Do([op |-> "update"])
        \* reading while entries wait for update is a misuse: the device does not hold them yet
        \/ st.cnt = 0 /\ \E o \in {"read", "mirror"} : Do([op |-> o, v |-> IF dev = <<>> THEN 0 ELSE Head(dev)])
Bound == Len(h) < MaxOps
Emit == PrintT("@@GEN " \o ToJson([cfg |-> [cap |-> st.cap, mode |-> st.mode, cmp |-> TRUE], h |-> [i \in DOMAIN h' |-> [do |-> h'[i].op] @@ h'[i]]]))
SameAsDevice == SubSeq(st.q, 1, Len(st.q) - st.cnt) = dev
Bounded == Len(st.q) <= st.cap /\ Len(dev) <= st.cap
Quiet == ~warned
=============================================================================
