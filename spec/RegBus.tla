----------------------------- MODULE RegBus -----------------------------
(* Frontdoor and backdoor accesses of registers and memories: which bus     *)
(* operations an access performs, in which order, with which data, what it  *)
(* returns, and which accesses are rejected.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RM == INSTANCE RegMap
\* values are byte sequences, least significant first, without trailing zeros
\* cfg.maps as in RegMap (par = 0: a root map with its own bus)
\* cfg.items[i] = [kind: "reg"|"mem", maps: sequence of [m, off, un, fd], bits, size, acc, bd]
\* cfg.rev: the transaction order policy reverses the operations of an access;  cfg.adap: an adapter is used
Byte(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
RECURSIVE Trim(_)
Trim(v) == IF v = <<>> THEN v ELSE IF v[Len(v)] = 0 THEN Trim(SubSeq(v, 1, Len(v) - 1)) ELSE v
NB(x) == (x.bits - 1) \div 8 + 1
RECURSIVE Under(_, _, _)
Under(maps, m, top) == IF m = 0 THEN FALSE ELSE IF m = top THEN TRUE ELSE Under(maps, maps[m].par, top)
RECURSIVE Root(_, _)
Root(maps, m) == IF maps[m].par = 0 THEN m ELSE Root(maps, maps[m].par)
\* the entry of the item's map list that an access through map mp uses (0: none)
First(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A q \in S : k <= q
Entry(st, i, mp) == LET ms == st.items[i].maps IN
    IF mp = 0 THEN IF ms = <<>> THEN 0 ELSE 1
    ELSE LET own == First({k \in DOMAIN ms : ms[k].m = mp}) IN
         IF own # 0 THEN own ELSE First({k \in DOMAIN ms : Under(st.maps, ms[k].m, mp)})
Front(st, e) == e.path = "F" \/ ~st.items[e.i].bd
Reject(st, e) ==
    LET x == st.items[e.i] k == Entry(st, e.i, e.mp) IN
    \/ x.kind = "mem" /\ e.off >= x.size
    \/ Front(st, e) /\ \/ k = 0
                       \/ k # 0 /\ ~x.maps[k].fd /\
                          \/ x.maps[k].un
                          \/ e.n > 1 /\ (x.bits > 8 * RM!Width(st.maps, x.maps[k].m) \/ e.off + e.n > x.size)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* the operations of element j (0-based): [addr, root, at (first byte), bits, data]
ElemOps(st, e, j) ==
    LET x == st.items[e.i] p == x.maps[Entry(st, e.i, e.mp)]
        w == RM!Width(st.maps, p.m)
        as == TLCEval(RM!Phys(st.maps, p.m, p.off, IF x.kind = "mem" THEN e.off + j ELSE 0, NB(x)))
        v == IF e.kind = "W" THEN e.vals[j + 1] ELSE <<>>
        ops == [k \in DOMAIN as |-> [addr |-> as[k], root |-> Root(st.maps, p.m), at |-> (k - 1) * w, el |-> j + 1, w |-> w,
                                     bits |-> RM!Min(8 * w, x.bits - 8 * w * (k - 1)),
                                     data |-> Trim([b \in 1 .. w |-> Byte(v, (k - 1) * w + b)])]]
    IN IF st.rev THEN Rev(ops) ELSE ops
Direct(st, e) == LET k == Entry(st, e.i, e.mp) IN Front(st, e) /\ k # 0 /\ (st.items[e.i].maps[k].fd \/ ~st.adap)
Ops(st, e) == IF Reject(st, e) \/ ~Front(st, e) \/ Direct(st, e) THEN <<>> ELSE RM!Flat([j \in 1 .. e.n |-> ElemOps(st, e, j - 1)])
\* no two words of any items share a bus address
Apart0(cfg) ==
    LET all == RM!Flat([i \in DOMAIN cfg.items |-> LET x == cfg.items[i] IN RM!Flat([k \in DOMAIN x.maps |-> LET p == x.maps[k] IN
                 RM!Flat([q \in 1 .. x.size |-> LET as == TLCEval(RM!Phys(cfg.maps, p.m, p.off, q - 1, NB(x))) IN
                     [j \in DOMAIN as |-> <<Root(cfg.maps, p.m), as[j]>>]])])])
    IN Cardinality(RM!Img(all)) = Len(all)
Init0(cfg) == [apart |-> TLCEval(Apart0(cfg)), maps |-> cfg.maps, items |-> cfg.items, rev |-> cfg.rev, adap |-> cfg.adap, acc |-> [d \in {} |-> 0],
               bd |-> [p \in {} |-> 0], con |-> [p \in {} |-> 0]]
Zero(n) == [j \in 1 .. n |-> <<>>]
\* merge d (bytes) into v at byte position at
RECURSIVE Merge(_, _, _, _)
Merge(v, d, at, w) == [b \in 1 .. RM!Max(Len(v), at + w) |-> IF b > at /\ b <= at + w THEN Byte(d, b - at) ELSE Byte(v, b)]
Open(st) == {d \in DOMAIN st.acc : ~st.acc[d].over}
Holder(st, i) == {d \in Open(st) : st.acc[d].e.i = i /\ st.acc[d].k > 0 /\ ~st.acc[d].fail /\ st.acc[d].k < Len(st.acc[d].ops)}
Read(f, p) == IF p \in DOMAIN f THEN f[p] ELSE <<>>
Put(f, p, v) == (p :> v) @@ f
RECURSIVE PutAll(_, _, _, _, _)
PutAll(f, i, off, vals, j) == IF j > Len(vals) THEN f ELSE PutAll(Put(f, <<i, off + j - 1>>, vals[j]), i, off, vals, j + 1)
RECURSIVE DropAll(_, _, _, _)
DropAll(f, i, lo, hi) == [p \in {q \in DOMAIN f : ~(q[1] = i /\ q[2] >= lo /\ q[2] < hi)} |-> f[p]]
Status(st, a) == IF Reject(st, a.e) \/ a.fail THEN "NOT_OK" ELSE "IS_OK"
Value(st, a) == IF ~Front(st, a.e) THEN [j \in 1 .. a.e.n |-> Read(st.bd, <<a.e.i, a.e.off + j - 1>>)] ELSE [j \in DOMAIN a.rd |-> Trim(a.rd[j])]
Close(st, e) ==
    LET a == st.acc[e.id] x == st.items[a.e.i] ok == Status(st, a) = "IS_OK"
        t == [st EXCEPT !.acc[e.id].over = TRUE]
    IN IF a.e.kind # "W" THEN t
       ELSE IF ~Front(st, a.e) THEN (IF ok /\ x.acc = "RW" THEN [t EXCEPT !.bd = PutAll(@, a.e.i, a.e.off, a.e.vals, 1)] ELSE t)
       ELSE IF Direct(st, a.e) THEN t
       ELSE IF ok THEN [t EXCEPT !.con = PutAll(@, a.e.i, a.e.off, a.e.vals, 1)]
       ELSE IF a.k > 0 THEN [t EXCEPT !.con = DropAll(@, a.e.i, a.e.off, a.e.off + a.e.n)] ELSE t
Step(st, e) ==
    CASE e.op = "start" -> [st EXCEPT !.acc = (e.id :> [e |-> e, ops |-> TLCEval(Ops(st, e)), k |-> 0, fail |-> FALSE, rd |-> Zero(e.n), over |-> FALSE, fd |-> 0,
                                                       alone |-> Open(st) = {}]) @@
                                                  [d \in DOMAIN st.acc |-> IF d \in Open(st) THEN [st.acc[d] EXCEPT !.alone = FALSE] ELSE st.acc[d]]]
      [] e.op = "bus" -> LET o == st.acc[e.id].ops[st.acc[e.id].k + 1] IN
           [st EXCEPT !.acc[e.id].k = @ + 1, !.acc[e.id].fail = ~e.ok, !.acc[e.id].rd[o.el] = IF e.ok THEN Merge(@, e.rdata, o.at, o.w) ELSE @]
      [] e.op = "direct" -> [st EXCEPT !.acc[e.id].fd = @ + 1, !.acc[e.id].fail = ~e.ok, !.acc[e.id].rd = e.rvals]
      [] e.op = "end" -> Close(st, e)
      [] OTHER -> st
\* is the content of the location known from the last completed write?
Known(st, a) == /\ a.alone /\ Front(st, a.e) /\ ~Direct(st, a.e) /\ ~Reject(st, a.e)
                /\ st.apart /\ Len(st.items[a.e.i].maps) = 1
                /\ \A j \in 0 .. a.e.n - 1 : <<a.e.i, a.e.off + j>> \in DOMAIN st.con
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op = "start" -> IF e.id \in DOMAIN st.acc THEN "outside-spec-domain" ELSE ""
      [] e.op = "bus" ->
           IF e.id \notin Open(st) THEN "operation-outside-access"
           ELSE LET a == st.acc[e.id] x == st.items[a.e.i] IN
                IF Reject(st, a.e) THEN "rejected-access-reaches-bus"
                ELSE IF a.k >= Len(a.ops) \/ a.fail THEN "extra-operation"
                ELSE IF x.kind = "reg" /\ Holder(st, a.e.i) \ {e.id} # {} THEN "interleaved-register-access"
                ELSE LET o == a.ops[a.k + 1] IN
                     IF e.root # o.root THEN "wrong-bus"
                     ELSE IF e.addr # o.addr THEN "address"
                     ELSE IF e.w # (a.e.kind = "W") THEN "direction"
                     ELSE IF e.w /\ e.data # o.data THEN "data"
                     ELSE IF o.bits > 0 /\ e.bits # o.bits THEN "bit-count"
                     ELSE IF e.be # 1 THEN "byte-enables" ELSE ""
      [] e.op = "direct" ->
           IF e.id \notin Open(st) THEN "operation-outside-access"
           ELSE LET a == st.acc[e.id] IN
                IF Reject(st, a.e) \/ ~Direct(st, a.e) \/ a.fd > 0 THEN "frontdoor-run"
                ELSE IF e.w # (a.e.kind = "W") \/ (e.w /\ e.vals # a.e.vals) \/ e.i # a.e.i \/ (st.items[e.i].kind = "mem" /\ e.off # a.e.off)
                THEN "frontdoor-item" ELSE ""
      [] e.op = "end" ->
           LET a == st.acc[e.id] IN
           IF ~a.fail /\ a.k < Len(a.ops) THEN "missing-operation"
           ELSE IF Direct(st, a.e) /\ ~Reject(st, a.e) /\ a.fd # 1 THEN "frontdoor-run"
           ELSE IF e.status # Status(st, a) THEN "status"
           ELSE IF a.e.kind = "R" /\ e.status = "IS_OK" /\ e.vals # Value(st, a) THEN "value"
           ELSE IF a.e.kind = "R" /\ e.status = "IS_OK" /\ Known(st, a) /\ \E j \in 1 .. a.e.n : e.vals[j] # st.con[<<a.e.i, a.e.off + j - 1>>] THEN "last-written"
           ELSE ""
      [] e.op = "mem" -> ""
      [] OTHER -> "outside-spec-domain"
Exp(st, e) == IF "id" \in DOMAIN e /\ e.id \in DOMAIN st.acc THEN [a |-> st.acc[e.id], reject |-> Reject(st, st.acc[e.id].e)] ELSE [none |-> 0]
=============================================================================
