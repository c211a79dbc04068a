----------------------------- MODULE MC_BuiltIn -----------------------------
(* The sequences against a device which behaves as its model, or deviates   *)
(* from it in one way: no false alarm, and every visible deviation is       *)
(* reported before the end.                                                 *)
EXTENDS BuiltIn, Json
CONSTANTS Accs, Seqs, Devs, MaxN, MaxSize
QSeqs == {<<"hw">>, <<"bash">>, <<"acc">>, <<"walk">>, <<"macc">>}
TSeqs == QSeqs \union {<<"hw", "bash">>, <<"bash", "acc">>, <<"hw", "bash", "acc">>, <<"macc", "walk">>}
VARIABLES st, dev, dv, dwr, dm, found, done
View == <<st, dev, dv, dwr, dm, found, done>>
F(l, n, a, z) == [lsb |-> l, n |-> n, acc |-> a, cmp |-> TRUE, rst |-> [i \in 1 .. n |-> IF z THEN i % 2 ELSE 0]]
OneMap == <<[m |-> 1, r |-> "RW"]>>
TwoMaps == <<[m |-> 1, r |-> "RW"], [m |-> 2, r |-> "RO"]>>
Rg(fs, n, maps) == [n |-> n, nb |-> 8, blk |-> 1, bd |-> TRUE, ex |-> <<>>, maps |-> maps, fields |-> fs]
Mm(n, size, maps) == [n |-> n, size |-> size, blk |-> 1, bd |-> TRUE, ex |-> <<>>, acc |-> "RW", maps |-> maps]
Roo(acc) == CASE acc = "WO" \/ acc = "WOC" \/ acc = "WOS" \/ acc = "WO1" -> OneMap [] OTHER -> TwoMaps
Cfgs == {[seq |-> s, conf |-> d = "none", blks |-> <<0>>, bex |-> <<<<>>>>,
          regs |-> IF Reg(s[1]) THEN <<Rg(<<F(0, 1, a, TRUE), F(1, 2, b, FALSE)>>, 3, IF Roo(a) = Roo(b) /\ x THEN Roo(a) ELSE OneMap), Rg(<<F(0, 3, "RW", TRUE)>>, 3, OneMap)>> ELSE <<>>,
          mems |-> IF Reg(s[1]) THEN <<>> ELSE <<Mm(n, z, IF x THEN TwoMaps ELSE OneMap)>>]
         : a \in Accs, b \in {"RW", "RO", "W1C"}, x \in BOOLEAN, n \in 1 .. MaxN, z \in 1 .. MaxSize, s \in Seqs, d \in Devs}
Sane(c, d) == /\ Reg(c.seq[1]) => c.mems = <<>> /\ TRUE
              /\ d \in {"rst", "stuck0", "stuck1", "pol", "swap"} => c.regs # <<>>
              /\ d \in {"mstuck0", "mstuck1", "malias", "mbd"} => c.mems # <<>>
              /\ c.conf <=> d = "none"
\* ---- the device ----
Dreset(c, d) == [i \in DOMAIN c.regs |-> LET r == ResetVal(c, i) IN IF d = "rst" /\ i = 1 THEN [r EXCEPT ![2] = 1 - @] ELSE r]
\* deviations of register 1 concern its second bit, a bit of its second field
DAcc(c, i, k, m) == IF dev = "pol" /\ i = 1 /\ k = 2 THEN IF c.regs[1].fields[2].acc = "RW" THEN "RO" ELSE "RW" ELSE Acc(c, i, k, m)
Stick(i, v) == IF i # 1 THEN v ELSE IF dev = "stuck0" THEN [v EXCEPT ![2] = 0] ELSE IF dev = "stuck1" THEN [v EXCEPT ![2] = 1] ELSE v
Tgt(i, p) == IF dev = "swap" /\ p = "F" /\ i = 1 THEN 2 ELSE i
RegRead(i, m, p) == LET j == Tgt(i, p) w == Stick(j, dv[j]) IN
    IF p = "B" THEN w ELSE Bits(st.c, j, LAMBDA b, k : IF Readable(DAcc(st.c, j, k, m)) THEN w[b] ELSE 0)
RegAfterRead(i, m, p) == LET j == Tgt(i, p) IN IF p = "B" THEN dv ELSE [dv EXCEPT ![j] = Bits(st.c, j, LAMBDA b, k : BitR(DAcc(st.c, j, k, m), @[b], @[b]))]
RegAfterWrite(i, m, p, v) == LET j == Tgt(i, p) IN
    [dv EXCEPT ![j] = IF p = "B" THEN v ELSE Bits(st.c, j, LAMBDA b, k : BitW(DAcc(st.c, j, k, m), @[b], v[b], dwr[j]))]
MTgt(a, p, i) == IF (dev = "malias" /\ p = "F") \/ (dev = "mbd" /\ p = "B") THEN IF a = 0 /\ st.c.mems[i].size > 1 THEN 1 ELSE a ELSE a
MStick(a, v) == IF a # 0 THEN v ELSE IF dev = "mstuck0" THEN [v EXCEPT ![1] = 0] ELSE IF dev = "mstuck1" THEN [v EXCEPT ![1] = 1] ELSE v
MemRead(i, a, p) == LET b == MTgt(a, p, i) IN MStick(b, dm[i][b])
Init == \E c \in Cfgs, d \in Devs :
    /\ Sane(c, d) /\ dev = d /\ st = Init0(c) /\ found = FALSE /\ done = FALSE
    /\ dv = [i \in DOMAIN c.regs |-> Stick(i, Dreset(c, d))] /\ dwr = [i \in DOMAIN c.regs |-> FALSE]
    /\ dm = [i \in DOMAIN c.mems |-> [a \in 0 .. c.mems[i].size - 1 |-> AllOnes(c.mems[i].n)]]
Err == IF st.due THEN 1 ELSE 0
Ev(cur, w, v) == [op |-> "acc", k |-> w.k, p |-> w.p, obj |-> IF Reg(st.ph) THEN "r" ELSE "m", i |-> cur.i, a |-> w.a,
                  m |-> IF w.p = "B" THEN 0 ELSE cur.m, v |-> v, ok |-> TRUE, err |-> Err]
Access(cur) ==
    LET w == Want(st, cur) i == cur.i m == IF w.p = "B" THEN 0 ELSE cur.m IN
    IF Reg(st.ph) THEN
        LET e == Ev(cur, w, IF w.k = "w" THEN w.v ELSE RegRead(i, m, w.p)) IN
        /\ Bad(st, e) = "" /\ st' = Step(st, e)
        /\ dv' = (IF w.k = "w" THEN RegAfterWrite(i, m, w.p, w.v) ELSE RegAfterRead(i, m, w.p))
        /\ dwr' = (IF w.k = "w" THEN [dwr EXCEPT ![Tgt(i, w.p)] = TRUE] ELSE dwr) /\ UNCHANGED dm
    ELSE \E v \in (IF w.k = "r" THEN {MemRead(i, w.a, w.p)} ELSE IF w.v = <<>> THEN {[b \in 1 .. st.c.mems[i].n |-> b % 2], [b \in 1 .. st.c.mems[i].n |-> 0]} ELSE {w.v}) :
        LET e == Ev(cur, w, v) IN
        /\ Bad(st, e) = "" /\ st' = Step(st, e)
        /\ dm' = (IF w.k = "w" /\ ~(w.p = "F" /\ MAcc(st.c, i, m) = "RO") THEN [dm EXCEPT ![i][MTgt(w.a, w.p, i)] = v] ELSE dm)
        /\ UNCHANGED <<dv, dwr>>
\* one fixed order of the items is enough here
Next ==
    /\ ~done /\ UNCHANGED dev /\ found' = (found \/ st.due)
    /\ \/ /\ st.cur.on /\ Access(st.cur) /\ UNCHANGED done
       \/ /\ ~st.cur.on /\ st.todo # {} /\ UNCHANGED done
          /\ LET q == CHOOSE q \in st.todo : TRUE IN Access(First(st.ph, st.c, q[1], q[2]))
       \/ /\ ~st.cur.on /\ st.todo = {} /\ st.rest # <<>> /\ UNCHANGED <<done, dm>>
          /\ LET e == [op |-> "devreset", err |-> Err] IN Bad(st, e) = "" /\ st' = Step(st, e)
          /\ dv' = [i \in DOMAIN st.c.regs |-> Stick(i, Dreset(st.c, dev)[i])] /\ dwr' = [i \in DOMAIN dwr |-> FALSE]
       \/ /\ ~st.cur.on /\ st.todo = {} /\ st.rest = <<>> /\ UNCHANGED <<dm, dv, dwr>>
          /\ LET e == [op |-> "end", err |-> Err] IN Bad(st, e) = "" /\ st' = Step(st, e)
          /\ done' = TRUE
Emit == done' => PrintT("@@GEN " \o ToJson([cfg |-> st.c, dev |-> dev]))
\* ---- a device that behaves as its model raises no alarm ----
NoAlarm == st.c.conf => ~st.due /\ ~found
\* the model's mirror is what the device holds
Mirror == st.c.conf /\ st.cur.on /\ Reg(st.ph) /\ st.ph = "hw" => \A i \in DOMAIN st.v : st.v[i] = dv[i]
\* ---- visible deviations are reported ----
Two == st.c.regs[1].fields[2].acc
Visible == LET ph == st.c.seq[1] IN
    CASE dev = "rst" -> ph = "hw"
      [] dev \in {"stuck0", "stuck1"} -> ph = "bash" /\ Two = "RW"
      [] dev = "pol" -> ph = "bash"
      [] dev = "swap" -> ph = "acc" /\ Usable(st.c, 1) /\ Two = "RW"
      [] dev \in {"mstuck0", "mstuck1"} -> ph = "macc" \/ (dev = "mstuck0" /\ ph = "walk")
      [] dev = "malias" -> ph \in {"walk", "macc"} /\ st.c.mems[1].size > 1
      [] dev = "mbd" -> ph = "macc" /\ st.c.mems[1].size > 1
      [] OTHER -> FALSE
Reported == done /\ Visible => found
=============================================================================
