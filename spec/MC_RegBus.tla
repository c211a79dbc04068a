----------------------------- MODULE MC_RegBus -----------------------------
(* Two accesses, possibly overlapping in time, of a register or a memory    *)
(* through a root map or a map below it, on a bus that stores what is       *)
(* written: what is read is what was written, whatever the widths.          *)
EXTENDS RegBus, Json
CONSTANTS Widths, Ends, Sizes, MaxOps, Bas, Revs
VARIABLES st, h, cfg, dev, last
View == <<st, dev, last, cfg>>
Init == \E w1, w2 \in Widths, en \in Ends, bits \in Sizes, ba \in Bas, rev \in Revs :
    /\ cfg = [maps |-> <<[par |-> 0, nb |-> w1, en |-> en, ba |-> ba, base |-> 4096, off |-> 0],
                         [par |-> 1, nb |-> w2, en |-> en, ba |-> ba, base |-> 0, off |-> 512]>>,
              items |-> <<[kind |-> "reg", maps |-> <<[m |-> 2, off |-> 16, un |-> FALSE, fd |-> FALSE]>>, bits |-> bits, size |-> 1, acc |-> "RW", bd |-> FALSE],
                          [kind |-> "mem", maps |-> <<[m |-> 2, off |-> 256, un |-> FALSE, fd |-> FALSE]>>, bits |-> bits, size |-> 3, acc |-> "RW", bd |-> FALSE]>>,
              rev |-> rev, adap |-> TRUE]
    /\ st = Init0(cfg) /\ h = <<>> /\ dev = [a \in {} |-> 0] /\ last = [p \in {} |-> 0]
Val(x, s) == [b \in 1 .. NB(x) |-> 16 * s + b]
Ids == DOMAIN st.acc
Start == /\ Cardinality(Ids) < MaxOps
         /\ \E i \in {1, 2}, kind \in {"W", "R"}, off \in {0, 1, 3}, n \in {1, 2}, par \in BOOLEAN :
            LET d == Cardinality(Ids) + 1 x == cfg.items[i]
                e == [op |-> "start", id |-> d, i |-> i, kind |-> kind, off |-> off, n |-> n, mp |-> 0, path |-> "F", par |-> par,
                      vals |-> IF kind = "W" THEN [j \in 1 .. n |-> Val(x, 3 * d + j)] ELSE Zero(n)]
            IN /\ i = 1 => off = 0 /\ n = 1
               /\ ~par => Open(st) = {}
               /\ par => Open(st) # {}
               /\ st' = Step(st, e) /\ h' = Append(h, e) /\ UNCHANGED <<cfg, dev, last>>
Bus == \E d \in Open(st) : LET a == st.acc[d] IN
    /\ a.k < Len(a.ops) /\ (a.k > 0 \/ Holder(st, a.e.i) = {} \/ st.items[a.e.i].kind = "mem")
    /\ LET o == a.ops[a.k + 1] r == IF o.addr \in DOMAIN dev THEN dev[o.addr] ELSE <<>> IN
       /\ st' = Step(st, [op |-> "bus", id |-> d, ok |-> TRUE, rdata |-> IF a.e.kind = "R" THEN r ELSE <<>>])
       /\ dev' = IF a.e.kind = "W" THEN (o.addr :> o.data) @@ dev ELSE dev
       /\ UNCHANGED <<cfg, h, last>>
Fin == \E d \in Open(st) : LET a == st.acc[d] IN
    /\ a.k = Len(a.ops)
    /\ st' = Step(st, [op |-> "end", id |-> d])
    /\ last' = IF a.e.kind = "R" /\ Status(st, a) = "IS_OK" THEN (d :> Value(st, a)) @@ last ELSE last
    /\ UNCHANGED <<cfg, h, dev>>
Next == Start \/ Bus \/ Fin
Emit == (h' # h) => PrintT("@@GEN " \o ToJson([cfg |-> cfg, h |-> [i \in DOMAIN h' |-> [do |-> "acc"] @@ h'[i]]]))
\* ---- read your write: a read that starts after every write is over returns the last completed write of each word ----
Wrote(i, off) == {d \in Ids : st.acc[d].e.kind = "W" /\ st.acc[d].e.i = i /\ off >= st.acc[d].e.off /\ off < st.acc[d].e.off + st.acc[d].e.n /\ Status(st, st.acc[d]) = "IS_OK"}
ReadYourWrite ==
    \A d \in DOMAIN last : LET a == st.acc[d] IN
        \A j \in 1 .. a.e.n : LET off == a.e.off + j - 1 W == {q \in Wrote(a.e.i, off) : q < d} IN
            (a.alone /\ (\A q \in W : st.acc[q].alone)) =>
                last[d][j] = IF W = {} THEN <<>> ELSE LET q == CHOOSE q \in W : \A z \in W : z <= q IN st.acc[q].e.vals[off - st.acc[q].e.off + 1]
\* every byte of a write is put on the bus exactly once, and no bus word is wider than the bus
Covers == \A d \in Ids : LET a == st.acc[d] IN
    ~Reject(st, a.e) => \A j \in 1 .. a.e.n : LET mine == {k \in DOMAIN a.ops : a.ops[k].el = j} IN
        /\ \A b \in 0 .. NB(cfg.items[a.e.i]) - 1 : Cardinality({k \in mine : a.ops[k].at <= b /\ b < a.ops[k].at + a.ops[k].w}) = 1
        /\ \A k1, k2 \in mine : k1 # k2 => a.ops[k1].addr # a.ops[k2].addr
\* the parts of one register access are never mixed with another access of it
Atomic == Cardinality(Holder(st, 1)) <= 1
\* the words of a memory never share a bus address
Apart == \A d1, d2 \in Ids : LET a == st.acc[d1] b == st.acc[d2] IN
    \A k \in DOMAIN a.ops : \A q \in DOMAIN b.ops :
        a.ops[k].addr = b.ops[q].addr => a.e.i = b.e.i /\ a.e.off + a.ops[k].el = b.e.off + b.ops[q].el
=============================================================================
