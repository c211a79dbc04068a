----------------------------- MODULE Predictor -----------------------------
(* A predictor listening to a bus: collects the parts of accesses to        *)
(* registers wider than the bus and predicts the mirror once per complete   *)
(* access; registers reached through an index/data pair included.           *)
EXTENDS RegPolicy, Integers, FiniteSets, TLC
RMd == INSTANCE RegModel
MP == INSTANCE RegMap
\* cfg.maps as in RegMap;  cfg.regs[r] as in RegModel, with [map, off, rights]; map = 0: only reached indirectly
\* cfg.ind: <<>> or <<[idx, data, tbl]>> of register numbers;  cfg.cor: reads are compared with the mirror
Init0(cfg) == LET m == [regs |-> [r \in DOMAIN cfg.regs |-> [cfg.regs[r] EXCEPT !.fields = [k \in DOMAIN @ |-> [@[k] EXCEPT !.acc = Through(@, cfg.regs[r].rights)]]]],
                        blks |-> <<0>>, auto |-> FALSE, cor |-> cfg.cor]
              IN [m |-> RMd!Init0(m), maps |-> cfg.maps, ind |-> cfg.ind, cor |-> cfg.cor, pend |-> [r \in {} |-> 0],
                  as |-> [r \in DOMAIN cfg.regs |-> IF cfg.regs[r].map = 0 THEN <<>>
                                                    ELSE MP!Phys(cfg.maps, cfg.regs[r].map, cfg.regs[r].off, 0, (cfg.regs[r].n - 1) \div 8 + 1)],
                  w |-> [r \in DOMAIN cfg.regs |-> IF cfg.regs[r].map = 0 THEN 1 ELSE MP!Width(cfg.maps, cfg.regs[r].map)]]
Reg(st, r) == st.m.regs[r]
At(st, a) == {r \in DOMAIN st.as : \E i \in DOMAIN st.as[r] : st.as[r][i] = a}
\* two registers may share an address when one is only read and the other only written
Look(st, a, w) == LET S == At(st, a) IN
    IF S = {} THEN 0 ELSE IF Cardinality(S) = 1 THEN CHOOSE r \in S : TRUE
    ELSE CHOOSE r \in S : Reg(st, r).rights = IF w THEN "WO" ELSE "RO"
Num(b) == LET RECURSIVE N(_) N(i) == IF i > Len(b) THEN 0 ELSE b[i] + 2 * N(i + 1) IN N(1)
Target(st, r) == IF st.ind = <<>> \/ st.ind[1].data # r THEN r
                 ELSE LET k == Num(RMd!Des(st.m, st.ind[1].idx)) IN IF k >= Len(st.ind[1].tbl) THEN 0 ELSE st.ind[1].tbl[k + 1]
Whole(st, r, parts) == [b \in 1 .. Reg(st, r).n |-> parts[(b - 1) \div (8 * st.w[r]) + 1][((b - 1) % (8 * st.w[r])) + 1]]
PredBe(st, r, w, v, be) == LET t == RMd!Pred(st, r, IF w THEN "pw" ELSE "pr", v, FALSE) IN
    [st EXCEPT !.s[r] = [k \in DOMAIN @ |-> IF be[st.regs[r].fields[k].lsb \div 8 + 1] = 1 THEN t.s[r][k] ELSE @[k]]]
Nothing(st) == [st |-> st, coll |-> FALSE, mis |-> FALSE, ierr |-> FALSE, pub |-> <<>>]
\* one observed bus operation o = [a: address, w: write, d: bits, be: byte enables]
Obs(st, o) ==
    LET r == Look(st, o.a, o.w) IN
    IF r = 0 THEN Nothing(st)
    ELSE LET p == IF r \in DOMAIN st.pend THEN st.pend[r] ELSE [w |-> o.w, parts |-> [i \in {} |-> <<>>]]
             i == CHOOSE i \in DOMAIN st.as[r] : st.as[r][i] = o.a
             drop == [st EXCEPT !.pend = [q \in DOMAIN @ \ {r} |-> @[q]]]
         IN IF i \in DOMAIN p.parts THEN [Nothing(drop) EXCEPT !.coll = TRUE]
            ELSE LET parts == (i :> o.d) @@ p.parts IN
                 IF DOMAIN parts # DOMAIN st.as[r] THEN Nothing([st EXCEPT !.pend = (r :> [w |-> p.w, parts |-> parts]) @@ @])
                 ELSE LET v == TLCEval(Whole(st, r, parts)) t == Target(st, r)
                          mis == ~p.w /\ st.cor /\ t # 0 /\ (IF t = r THEN RMd!Mismatch(st.m, r, v) ELSE v # RMd!Mir(st.m, t))
                      IN [st |-> IF t = 0 THEN drop ELSE [drop EXCEPT !.m = PredBe(@, t, p.w, v, o.be)],
                          coll |-> FALSE, mis |-> mis, ierr |-> t = 0, pub |-> <<[r |-> r, w |-> p.w, v |-> v]>>]
Plus(a, b) == [st |-> b.st, coll |-> a.coll \/ b.coll, mis |-> a.mis \/ b.mis, ierr |-> a.ierr \/ b.ierr, pub |-> a.pub \o b.pub]
RECURSIVE ObsAll(_, _)
ObsAll(acc, os) == IF os = <<>> THEN acc ELSE ObsAll(Plus(acc, Obs(acc.st, Head(os))), Tail(os))
AllOn == [i \in 1 .. 8 |-> 1]
Bin(k, n) == LET RECURSIVE P(_) P(i) == IF i = 0 THEN 1 ELSE 2 * P(i - 1) IN [b \in 1 .. n |-> (k \div P(IF b > 20 THEN 20 ELSE b - 1)) % 2]
\* the operations of an access to register r
Ops(st, r, w, v) == [i \in DOMAIN st.as[r] |-> [a |-> st.as[r][i], w |-> w, be |-> AllOn,
                        d |-> [b \in 1 .. 8 * st.w[r] |-> LET x == (i - 1) * 8 * st.w[r] + b IN IF x <= Len(v) THEN v[x] ELSE 0]]]
\* an access to an indirect register selects it first
IndOps(st, e) == LET d == st.ind[1] IN Ops(st, d.idx, TRUE, Bin(e.k - 1, Reg(st, d.idx).n)) \o Ops(st, d.data, e.w, e.v)
Result(st, e) == CASE e.op = "obs" -> Obs(st, e)
                   [] e.op = "ind" -> ObsAll(Nothing(st), IndOps(st, e))
                   [] e.op = "set" -> Nothing([st EXCEPT !.m = RMd!SetReg(@, e.r, e.v)])
                   [] OTHER -> Nothing(st)
Step(st, e) == Result(st, e).st
Bad(st, e) ==
    IF e.op \in {"crash", "hang"} THEN e.op
    ELSE IF e.op = "check" THEN (IF e.pending # (DOMAIN st.pend # {}) THEN "pending-report" ELSE "")
    ELSE LET q == TLCEval(Result(st, e)) IN
         IF e.op = "ind" /\ e.bus # [i \in DOMAIN IndOps(st, e) |-> [a |-> IndOps(st, e)[i].a, w |-> IndOps(st, e)[i].w, d |-> IndOps(st, e)[i].d]] THEN "indirect-bus"
         ELSE IF e.op = "ind" /\ e.val # e.v THEN "indirect-value"
         ELSE IF e.coll # q.coll THEN "collision-report"
         ELSE IF e.ierr # q.ierr THEN "index-report"
         ELSE IF e.pub # q.pub THEN "published"
         ELSE IF e.pre # [i \in DOMAIN q.pub |-> q.pub[i].r] THEN "pre-predict"
         ELSE IF \E r \in DOMAIN st.as : e.mir[r] # RMd!Mir(q.st.m, r) THEN "mirror"
         ELSE IF \E r \in DOMAIN st.as : e.des[r] # RMd!Des(q.st.m, r) THEN "desired"
         ELSE IF e.mis # q.mis /\ ~q.ierr THEN "mismatch-report" \* a value read while the index is invalid is compared with nothing in particular
         ELSE ""
Exp(st, e) == IF e.op \in {"crash", "hang"} THEN [none |-> 0]
              ELSE LET q == Result(st, e) IN [pub |-> q.pub, coll |-> q.coll, mis |-> q.mis, ierr |-> q.ierr, pend |-> q.st.pend, as |-> st.as,
                                              mir |-> [r \in DOMAIN st.as |-> RMd!Mir(q.st.m, r)]]
=============================================================================
