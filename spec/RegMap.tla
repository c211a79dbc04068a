----------------------------- MODULE RegMap -----------------------------
(* Address maps: where registers and memories end up on the bus, lookup by *)
(* address, reported conflicts, and moving things after the model is locked.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* cfg.maps[m] = [par, nb, en (1 little, 2 big, 3 little fifo, 4 big fifo), ba, base, off]; map 1 is the root, par < m
\* cfg.items[i] = [kind: "reg"|"mem", name, map, off, nb, size, acc, un]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Img(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Phys(_, _, _, _, _)
Phys(maps, m, base, mo, n) ==
    LET mp == maps[m]
        mult == IF mp.ba THEN mp.nb ELSE 1
        cnt == (n - 1) \div mp.nb + 1
        b0 == base + mo * cnt * mult
        local == [i \in 1 .. cnt |-> CASE mp.en = 1 -> b0 + (i - 1) * mult [] mp.en = 2 -> b0 + (cnt - i) * mult [] OTHER -> b0]
    IN IF mp.par = 0 THEN [i \in 1 .. cnt |-> local[i] + mp.base]
       ELSE LET up == maps[mp.par] k == (mp.nb - 1) \div up.nb + 1
            IN Flat([i \in 1 .. cnt |-> Phys(maps, mp.par, mp.off + local[i] * k, 0, mp.nb)])
RECURSIVE Width(_, _)
Width(maps, m) == IF maps[m].par = 0 THEN maps[m].nb ELSE Min(maps[m].nb, Width(maps, maps[m].par))
Addrs(st, i) == LET x == st.items[i] IN Phys(st.maps, x.map, x.off, 0, x.nb)
Range(st, i) == LET x == st.items[i]
                    a == Addrs(st, i) z == Phys(st.maps, x.map, x.off, x.size - 1, x.nb)
                IN [lo |-> Min(a[1], a[Len(a)]), hi |-> Max(z[1], z[Len(z)]),
                    stride |-> IF x.size > 1 THEN (z[1] - a[1]) \div (x.size - 1) ELSE 0]
\* ---- the table: address -> [rd, wr] of item numbers; conflicts are pairs of names ----
None == [a \in {} |-> 0]
Pair(st, i, j) == {st.items[i].name, st.items[j].name}
PutAddr(st, acc, i, a) ==
    LET t == acc.t x == st.items[i] IN
    IF a \notin DOMAIN t THEN [acc EXCEPT !.t = (a :> [rd |-> i, wr |-> i]) @@ t]
    ELSE LET j == t[a].rd y == st.items[j] IN
         CASE x.acc = "RO" /\ y.acc = "WO" -> [acc EXCEPT !.t[a] = [rd |-> i, wr |-> j]]
           [] x.acc = "WO" /\ y.acc = "RO" -> [acc EXCEPT !.t[a].wr = i]
           [] OTHER -> [acc EXCEPT !.c = @ \union {Pair(st, i, j)}]
RECURSIVE PutAddrs(_, _, _, _)
PutAddrs(st, acc, i, as) == IF as = <<>> THEN acc ELSE PutAddrs(st, PutAddr(st, acc, i, Head(as)), i, Tail(as))
InMem(st, acc, i, as) == [acc EXCEPT !.c = @ \union {Pair(st, i, m) : m \in {q \in acc.m : LET r == TLCEval(Range(st, q)) IN \E a \in Img(as) : a >= r.lo /\ a <= r.hi}}]
PutReg(st, acc, i) == IF st.items[i].un THEN acc ELSE LET as == TLCEval(Addrs(st, i)) IN InMem(st, PutAddrs(st, acc, i, as), i, as)
PutMem(st, acc, i) ==
    IF st.items[i].un THEN acc ELSE
    LET r == TLCEval(Range(st, i)) IN
    [acc EXCEPT !.c = @ \union {Pair(st, i, acc.t[a].rd) : a \in {q \in DOMAIN acc.t : q >= r.lo /\ q <= r.hi}}
                        \union {Pair(st, i, m) : m \in {q \in acc.m : Range(st, q).lo <= r.hi /\ r.lo <= Range(st, q).hi}},
                !.m = @ \union {i}]
\* children first, then registers, then memories, in the order they were added
RECURSIVE Order(_, _)
Order(st, m) == Flat([q \in 1 .. Len(st.maps) |-> IF st.maps[q].par = m THEN Order(st, q) ELSE <<>>])
                \o SelectSeq([i \in 1 .. Len(st.items) |-> i], LAMBDA i : st.items[i].map = m /\ st.items[i].kind = "reg")
                \o SelectSeq([i \in 1 .. Len(st.items) |-> i], LAMBDA i : st.items[i].map = m /\ st.items[i].kind = "mem")
RECURSIVE Fill(_, _, _)
Fill(st, acc, s) == IF s = <<>> THEN acc
                    ELSE Fill(st, IF st.items[Head(s)].kind = "reg" THEN PutReg(st, acc, Head(s)) ELSE PutMem(st, acc, Head(s)), Tail(s))
Build(st) == LET acc == Fill(st, [t |-> None, m |-> {}, c |-> {}], Order(st, 1)) IN [st EXCEPT !.t = acc.t, !.m = acc.m, !.c = acc.c]
Init0(cfg) == [maps |-> cfg.maps, items |-> cfg.items, t |-> None, m |-> {}, c |-> {}, lock |-> FALSE]
\* a register moves: its old addresses are given up (to the register that shared them), the new ones are taken
Drop(st, i) == IF st.items[i].un THEN st.t ELSE
    LET own == TLCEval(Img(Addrs(st, i)))
        shared(a) == st.t[a].rd # st.t[a].wr
        gone == {a \in DOMAIN st.t : a \in own /\ ~shared(a) /\ st.t[a].rd = i}
    IN [a \in DOMAIN st.t \ gone |-> IF a \in own /\ shared(a) /\ (st.t[a].rd = i \/ st.t[a].wr = i)
                                      THEN LET j == IF st.t[a].rd = i THEN st.t[a].wr ELSE st.t[a].rd IN [rd |-> j, wr |-> j] ELSE st.t[a]]
Move(st, i, off, un) ==
    LET t1 == [st EXCEPT !.t = Drop(st, i), !.items[i].off = off, !.items[i].un = un, !.c = {}]
        acc == IF un THEN [t |-> t1.t, m |-> t1.m, c |-> {}] ELSE PutReg(t1, [t |-> t1.t, m |-> t1.m, c |-> {}], i)
    IN [t1 EXCEPT !.t = acc.t, !.c = acc.c]
Step(st, e) ==
    CASE e.op = "lock" -> [Build(st) EXCEPT !.lock = TRUE]
      [] e.op = "move" -> IF st.lock THEN Move(st, e.i, e.off, e.un) ELSE [st EXCEPT !.items[e.i].off = e.off, !.items[e.i].un = e.un]
      [] e.op = "submap" -> LET t == [st EXCEPT !.maps[e.m].off = e.off] IN IF st.lock THEN Build(t) ELSE t
      [] OTHER -> st
Find(st, a, rd) == IF a \notin DOMAIN st.t THEN "" ELSE st.items[IF rd THEN st.t[a].rd ELSE st.t[a].wr].name
RECURSIVE Base(_, _)
Base(maps, m) == IF maps[m].par = 0 THEN maps[m].base ELSE maps[m].off + Base(maps, maps[m].par)
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op \in {"lock", "move", "submap"} ->
           LET t == Step(st, e) IN IF t.lock /\ {Img(e.confl[k]) : k \in DOMAIN e.confl} # t.c THEN "conflict-report" ELSE ""
      [] e.op = "where" -> LET x == st.items[e.i] IN
           IF x.un THEN (IF e.addrs # <<>> \/ e.off # -1 THEN "unmapped" ELSE "")
           ELSE IF e.addrs # Addrs(st, e.i) THEN "address"
           ELSE IF e.off # x.off THEN "offset"
           ELSE IF e.width # Width(st.maps, x.map) THEN "width"
           ELSE IF x.kind = "mem" /\ e.range # Range(st, e.i) THEN "memory-range" ELSE ""
      [] e.op = "find" -> IF e.r # Find(st, e.a, e.rd) THEN "lookup" ELSE ""
      [] e.op = "map" -> IF e.base # Base(st.maps, e.m) THEN "base-address" ELSE IF e.root # 1 THEN "root-map" ELSE ""
      [] OTHER -> "outside-spec-domain"
Exp(st, e) == CASE e.op = "where" -> [addrs |-> Addrs(st, e.i), item |-> st.items[e.i]]
                [] e.op = "find" -> [r |-> Find(st, e.a, e.rd)]
                [] e.op \in {"lock", "move", "submap"} -> [confl |-> Step(st, e).c]
                [] OTHER -> [maps |-> st.maps]
=============================================================================
