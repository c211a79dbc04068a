------------------------------ MODULE BuiltIn ------------------------------
(* The built-in register and memory test sequences: which accesses they     *)
(* make, and when they report an error.                                     *)
EXTENDS RegPolicy, Integers, FiniteSets, TLC
\* cfg.seq: sequence names in the order they run; cfg.conf: the device behaves as its model
\* cfg.blks[b] = parent (0: none); cfg.bex[b] = attributes set on block b
\* cfg.regs[i] = [n, nb, blk, bd, ex, maps: sequence of [m, r], fields: sequence of [lsb, n, acc, cmp, rst]]
\* cfg.mems[i] = [n, size, blk, bd, ex, acc, maps: sequence of [m, r]]
SetOf(s) == {s[j] : j \in DOMAIN s}
Excl(ph) == CASE ph = "hw" -> {"NO_REG_TESTS", "NO_REG_HW_RESET_TEST"}
              [] ph = "bash" -> {"NO_REG_TESTS", "NO_REG_BIT_BASH_TEST"}
              [] ph = "acc" -> {"NO_REG_TESTS", "NO_REG_ACCESS_TEST"}
              [] ph = "walk" -> {"NO_REG_TESTS", "NO_MEM_TESTS", "NO_MEM_WALK_TEST"}
              [] OTHER -> {"NO_REG_TESTS", "NO_MEM_TESTS", "NO_MEM_ACCESS_TEST"}
RECURSIVE Out(_, _, _)
Out(c, b, ph) == b # 0 /\ (SetOf(c.bex[b]) \cap Excl(ph) # {} \/ Out(c, c.blks[b], ph))
\* ---- the model ----
FieldAt(c, i, b) == LET K == {k \in DOMAIN c.regs[i].fields : c.regs[i].fields[k].lsb < b /\ b <= c.regs[i].fields[k].lsb + c.regs[i].fields[k].n} IN
                    IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
Rights(x, m) == LET J == {j \in DOMAIN x.maps : x.maps[j].m = m} IN IF J = {} THEN "RW" ELSE x.maps[CHOOSE j \in J : TRUE].r
\* the policy of a field through a map; m = 0 is the backdoor
Acc(c, i, k, m) == Through(c.regs[i].fields[k].acc, IF m = 0 THEN "RW" ELSE Rights(c.regs[i], m))
MAcc(c, i, m) == LET x == c.mems[i] IN IF Len(x.maps) = 1 THEN x.acc ELSE IF Rights(x, m) = "RO" THEN "RO" ELSE x.acc
Bits(c, i, Op(_, _)) == [b \in 1 .. c.regs[i].n |-> LET k == FieldAt(c, i, b) IN IF k = 0 THEN 0 ELSE Op(b, k)]
ResetVal(c, i) == Bits(c, i, LAMBDA b, k : c.regs[i].fields[k].rst[b - c.regs[i].fields[k].lsb])
DontCare(c, i, m) == [b \in 1 .. c.regs[i].nb |-> IF b > c.regs[i].n \/ FieldAt(c, i, b) = 0 THEN FALSE
                        ELSE LET k == FieldAt(c, i, b) IN ~c.regs[i].fields[k].cmp \/ Acc(c, i, k, m) \in {"WO", "WOC", "WOS", "WO1", "NOACCESS"}]
PredW(st, i, m, v) == Bits(st.c, i, LAMBDA b, k : BitW(Acc(st.c, i, k, m), st.v[i][b], v[b], st.wr[i]))
PredR(st, i, m, v) == Bits(st.c, i, LAMBDA b, k : LET a == Acc(st.c, i, k, m) IN IF Readable(a) THEN BitR(a, st.v[i][b], v[b]) ELSE st.v[i][b])
Mismatch(st, i, m, v) == \E b \in 1 .. st.c.regs[i].n : LET k == FieldAt(st.c, i, b) IN
    k # 0 /\ st.c.regs[i].fields[k].cmp /\ SubSeq(Acc(st.c, i, k, m), 1, 2) # "WO" /\ v[b] # st.v[i][b]
ReadKind(acc) == IF acc \in {"RC", "WRC", "WSRC", "W1SRC", "W0SRC"} THEN 0 ELSE IF acc \in {"RS", "WRS", "WCRS", "W1CRS", "W0CRS"} THEN 1 ELSE 2
\* ---- what is to be tested ----
Usable(c, i) == /\ c.regs[i].bd
                /\ \A j \in DOMAIN c.regs[i].maps : \E k \in DOMAIN c.regs[i].fields : Acc(c, i, k, c.regs[i].maps[j].m) # "RO"
Reg(ph) == ph \in {"hw", "bash", "acc"}
Items(c, ph) == IF Reg(ph) THEN
    {<<i, m>> \in (DOMAIN c.regs) \X (0 .. 20) :
        /\ \E j \in DOMAIN c.regs[i].maps : c.regs[i].maps[j].m = m
        /\ SetOf(c.regs[i].ex) \cap Excl(ph) = {} /\ ~Out(c, c.regs[i].blk, ph)
        /\ ph = "acc" => Usable(c, i)
        /\ ph = "bash" => \E b \in 1 .. c.regs[i].nb : ~DontCare(c, i, m)[b]}
    ELSE {<<i, m>> \in (DOMAIN c.mems) \X (0 .. 20) :
        /\ \E j \in DOMAIN c.mems[i].maps : c.mems[i].maps[j].m = m
        /\ SetOf(c.mems[i].ex) \cap Excl(ph) = {} /\ ~Out(c, c.mems[i].blk, ph)
        /\ ph = "walk" => MAcc(c, i, m) = "RW"
        /\ ph = "macc" => c.mems[i].bd}
Off == [on |-> FALSE, i |-> 0, m |-> 0, pc |-> 0, k |-> 0, t |-> 0, x |-> <<>>]
RECURSIVE Drop(_, _)
Drop(c, s) == IF s # <<>> /\ Items(c, Head(s)) = {} THEN Drop(c, Tail(s)) ELSE s
Init0(cfg) == [c |-> cfg, v |-> [i \in DOMAIN cfg.regs |-> ResetVal(cfg, i)], wr |-> [i \in DOMAIN cfg.regs |-> FALSE],
               ph |-> "", rest |-> Drop(cfg, cfg.seq), todo |-> {}, fresh |-> TRUE, cur |-> Off, due |-> FALSE, loose |-> FALSE]
\* ---- the next access of the item being tested: [k, p, a, v] (v = <<>>: any) ----
Val(x, n) == [b \in 1 .. n |-> IF b > 20 THEN 0 ELSE (x \div (2 ^ (b - 1))) % 2]
Not(v) == [b \in DOMAIN v |-> 1 - v[b]]
NextBit(c, i, m, k) == LET K == {b \in (k + 1) .. c.regs[i].nb : ~DontCare(c, i, m)[b]} IN IF K = {} THEN 0 ELSE CHOOSE b \in K : \A d \in K : b <= d
AllOnes(n) == [b \in 1 .. n |-> 1]
Plain(k, p) == [k |-> k, p |-> p, a |-> 0, v |-> <<>>]
First(ph, c, i, m) == CASE ph = "bash" -> [Off EXCEPT !.on = TRUE, !.i = i, !.m = m, !.pc = 1, !.k = NextBit(c, i, m, 0), !.t = 1]
                        [] ph = "macc" -> [Off EXCEPT !.on = TRUE, !.i = i, !.m = m, !.pc = IF MAcc(c, i, m) = "RO" THEN 0 ELSE 1]
                        [] OTHER -> [Off EXCEPT !.on = TRUE, !.i = i, !.m = m, !.pc = 1]
WithA(w, a) == [w EXCEPT !.a = a]
WithV(w, v) == [w EXCEPT !.v = v]
WalkVal(c, i, a) == Val(a, c.mems[i].n)
Want(st, cur) == LET c == st.c i == cur.i IN
    CASE st.ph = "hw" -> Plain("r", "F")
      [] st.ph = "bash" -> IF cur.pc = 1 THEN WithV(Plain("w", "F"), [b \in 1 .. c.regs[i].n |-> IF b = cur.k THEN 1 - st.v[i][b] ELSE st.v[i][b]]) ELSE Plain("r", "F")
      [] st.ph = "acc" -> (CASE cur.pc = 1 -> WithV(Plain("w", "F"), Not(st.v[i]))
                             [] cur.pc = 2 -> Plain("r", "B")
                             [] cur.pc = 3 -> WithV(Plain("w", "B"), cur.x[2])
                             [] cur.pc = 4 -> Plain("r", "B")
                             [] cur.pc = 5 -> WithV(Plain("w", "B"), cur.x[2])
                             [] OTHER -> Plain("r", "F"))
      [] st.ph = "walk" -> (CASE cur.pc = 1 -> WithV(WithA(Plain("w", "F"), cur.k), Not(WalkVal(c, i, cur.k)))
                              [] cur.pc = 2 -> WithA(Plain("r", "F"), cur.k - 1)
                              [] cur.pc = 3 -> WithV(WithA(Plain("w", "F"), cur.k - 1), WalkVal(c, i, cur.k - 1))
                              [] OTHER -> WithA(Plain("r", "F"), cur.k))
      [] OTHER -> WithA((CASE cur.pc = 0 -> Plain("r", "B")
                           [] cur.pc = 1 -> Plain("w", "F")
                           [] cur.pc = 2 -> Plain("r", "B")
                           [] cur.pc = 3 -> WithV(Plain("w", "B"), Not(cur.x))
                           [] OTHER -> Plain("r", "F")), cur.k)
\* ---- its effect ----
Finish(st) == [st EXCEPT !.cur = Off, !.todo = @ \ {<<st.cur.i, st.cur.m>>}]
To(st, pc) == [st EXCEPT !.cur.pc = pc]
Move(st, e) == LET c == st.c cur == st.cur i == cur.i m == cur.m s0 == [st EXCEPT !.fresh = FALSE, !.due = FALSE] IN
    CASE ~e.ok -> [s0 EXCEPT !.due = TRUE, !.loose = TRUE]
      [] st.ph = "hw" -> Finish([s0 EXCEPT !.due = Mismatch(st, i, m, e.v), !.v[i] = PredR(st, i, m, e.v)])
      [] st.ph = "bash" ->
            IF cur.pc = 1 THEN To([s0 EXCEPT !.v[i] = PredW(st, i, m, e.v), !.wr[i] = TRUE], 2)
            ELSE LET s1 == [s0 EXCEPT !.due = \E b \in 1 .. c.regs[i].n : ~DontCare(c, i, m)[b] /\ e.v[b] # st.v[i][b], !.v[i] = PredR(st, i, m, e.v)]
                     nx == NextBit(c, i, m, cur.k) IN
                 IF cur.t = 1 THEN [s1 EXCEPT !.cur.t = 2, !.cur.pc = 1]
                 ELSE IF nx = 0 THEN Finish(s1) ELSE [s1 EXCEPT !.cur.t = 1, !.cur.pc = 1, !.cur.k = nx]
      [] st.ph = "acc" ->
            (CASE cur.pc = 1 -> [To([s0 EXCEPT !.v[i] = PredW(st, i, m, e.v), !.wr[i] = TRUE], 2) EXCEPT !.cur.x = <<st.v[i], <<>>>>]
               [] cur.pc = 2 ->
                    LET seen == Bits(c, i, LAMBDA b, k : IF Acc(c, i, k, 0) \in {"WO", "WOC", "WOS", "WO1"} THEN 0 ELSE e.v[b])
                        after == Bits(c, i, LAMBDA b, k : LET x == ReadKind(Acc(c, i, k, 0)) IN IF x = 2 THEN e.v[b] ELSE x)
                        was == Bits(c, i, LAMBDA b, k : e.v[b]) IN
                    \* the mismatch is reported after the side effect of reading was done through the backdoor
                    IF after # was THEN [To(s0, 3) EXCEPT !.cur.x[2] = after, !.cur.k = IF Mismatch(st, i, 0, seen) THEN 1 ELSE 0]
                    ELSE To([s0 EXCEPT !.due = Mismatch(st, i, 0, seen)], 4)
               [] cur.pc = 3 -> To([s0 EXCEPT !.due = cur.k = 1], 4)
               [] cur.pc = 4 -> [To(s0, 5) EXCEPT !.cur.x[2] = Bits(c, i, LAMBDA b, k : BitW(Acc(c, i, k, 0), e.v[b], cur.x[1][b], TRUE))]
               [] cur.pc = 5 -> To([s0 EXCEPT !.v[i] = cur.x[2]], 6)
               [] OTHER -> Finish([s0 EXCEPT !.due = Mismatch(st, i, m, e.v), !.v[i] = PredR(st, i, m, e.v)]))
      [] st.ph = "walk" -> LET last == cur.k = c.mems[i].size - 1
                               Onward(s) == IF last THEN To(s, 4) ELSE [To(s, 1) EXCEPT !.cur.k = @ + 1] IN
            (CASE cur.pc = 1 -> IF cur.k > 0 THEN To(s0, 2) ELSE Onward(s0)
               [] cur.pc = 2 -> To([s0 EXCEPT !.due = e.v # Not(WalkVal(c, i, cur.k - 1))], 3)
               [] cur.pc = 3 -> Onward(s0)
               [] OTHER -> Finish([s0 EXCEPT !.due = e.v # Not(WalkVal(c, i, cur.k))]))
      [] OTHER -> (CASE cur.pc = 0 -> [To(s0, 1) EXCEPT !.cur.x = e.v]
                     [] cur.pc = 1 -> [To(s0, 2) EXCEPT !.cur.x = IF MAcc(c, i, m) = "RO" THEN @ ELSE e.v]
                     [] cur.pc = 2 -> To([s0 EXCEPT !.due = e.v # cur.x], 3)
                     [] cur.pc = 3 -> To(s0, 4)
                     [] OTHER -> LET s1 == [s0 EXCEPT !.due = e.v # Not(cur.x)] IN
                                 IF cur.k = c.mems[i].size - 1 THEN Finish(s1)
                                 ELSE [s1 EXCEPT !.cur.k = @ + 1, !.cur.pc = IF MAcc(c, i, m) = "RO" THEN 0 ELSE 1])
\* the items an access may begin, or go on with; an access through the backdoor does not tell the map
Cands(st, e) == IF st.cur.on THEN {st.cur} \union (IF st.ph = "macc" /\ st.cur.pc = 1 /\ <<st.cur.i, e.m>> \in Items(st.c, "macc") /\ st.cur.k = 0
                                                     /\ MAcc(st.c, st.cur.i, st.cur.m) = "RO" /\ MAcc(st.c, st.cur.i, e.m) = "RO"
                                                  THEN {[st.cur EXCEPT !.m = e.m]} ELSE {})
                ELSE {First(st.ph, st.c, q[1], q[2]) : q \in {q \in Items(st.c, st.ph) : q[1] = e.i /\ (e.m = 0 \/ q[2] = e.m)}}
Low(v, n) == SubSeq(v, 1, n)
Fits(st, cur, e) == LET w == Want(st, cur) IN
    /\ e.k = w.k /\ e.p = w.p /\ e.i = cur.i /\ e.obj = (IF Reg(st.ph) THEN "r" ELSE "m") /\ (~Reg(st.ph) => e.a = w.a)
    /\ e.m = 0 \/ e.m = cur.m
ValueFits(st, cur, e) == LET w == Want(st, cur) IN e.k = "r" \/ (Len(e.v) >= Len(w.v) /\ Low(e.v, Len(w.v)) = w.v)
Good(st, e) == {cur \in Cands(st, e) : Fits(st, cur, e)}
\* of several, prefer one not tested yet
Pick(st, e) == LET G == Good(st, e) T == {g \in G : <<g.i, g.m>> \in st.todo} IN IF T # {} THEN CHOOSE g \in T : TRUE ELSE CHOOSE g \in G : TRUE
Renew(st) == [st EXCEPT !.v = [i \in DOMAIN st.v |-> ResetVal(st.c, i)], !.wr = [i \in DOMAIN st.wr |-> FALSE], !.due = FALSE]
Pop(st) == IF st.rest = <<>> THEN [st EXCEPT !.fresh = TRUE]
           ELSE [st EXCEPT !.ph = Head(st.rest), !.rest = Drop(st.c, Tail(st.rest)), !.todo = Items(st.c, Head(st.rest)), !.fresh = TRUE]
Step(st, e) ==
    CASE st.loose -> [st EXCEPT !.due = FALSE]
      [] e.op = "devreset" -> IF st.todo = {} THEN Pop(Renew(st)) ELSE Renew(st)
      [] e.op = "acc" -> Move([st EXCEPT !.cur = Pick(st, e)], e)
      [] OTHER -> st
Bad(st, e) ==
    IF e.op \in {"crash", "hang"} THEN e.op
    ELSE IF st.loose /\ ~st.due THEN ""
    ELSE IF e.err > 0 /\ ~st.due THEN IF st.c.conf THEN "false-alarm" ELSE "false-report"
    ELSE IF e.err = 0 /\ st.due THEN "deviation-not-reported"
    ELSE IF e.err > 0 /\ st.c.conf THEN "false-alarm"
    ELSE IF st.loose THEN ""
    ELSE CASE e.op = "devreset" -> IF st.todo # {} /\ ~st.fresh THEN "not-tested" ELSE ""
           [] e.op = "end" -> IF st.todo # {} \/ st.rest # <<>> \/ st.cur.on THEN "not-tested" ELSE ""
           [] e.op = "acc" -> IF st.ph = "" THEN "not-reset"
                              ELSE IF Good(st, e) = {} THEN "unexpected-access"
                              ELSE IF ~ValueFits(st, Pick(st, e), e) THEN "written-value"
                              ELSE ""
           [] OTHER -> ""
Exp(st, e) == [ph |-> st.ph, due |-> st.due, todo |-> st.todo, rest |-> st.rest, cur |-> st.cur, v |-> st.v,
               want |-> IF st.cur.on THEN Want(st, st.cur) ELSE Off]
=============================================================================
