----------------------------- MODULE RegModel -----------------------------
(* Registers of several fields in blocks: desired and mirrored values, and  *)
(* what set, predict, reset, write, read, update and mirror do to them and  *)
(* to the device, through the bus or through a user-defined backdoor.       *)
EXTENDS RegPolicy, Integers, FiniteSets, TLC
\* cfg.regs[r] = [n, blk, cb: "none"|"flip"|"abort", fields: sequence of [lsb, n, acc, vol, cmp, hasrst, rst]], sorted by lsb
\* cfg.blks[b] = parent block (0: none), parents first;  cfg.auto, cfg.cor: auto-predict and check-on-read of the map
Fl(st, r) == st.regs[r].fields
Slice(v, f) == [i \in 1 .. f.n |-> IF f.lsb + i <= Len(v) THEN v[f.lsb + i] ELSE 0]
Comp(st, r, vals) == LET fs == Fl(st, r) IN
    [b \in 1 .. st.regs[r].n |-> LET K == {k \in DOMAIN fs : fs[k].lsb < b /\ b <= fs[k].lsb + fs[k].n} IN
                                 IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN vals[k][b - fs[k].lsb]]
Each(st, r, Op(_, _)) == [k \in DOMAIN Fl(st, r) |-> Op(Fl(st, r)[k], k)]
Init0(cfg) == [regs |-> cfg.regs, blks |-> cfg.blks, auto |-> cfg.auto, cor |-> cfg.cor,
               s |-> [r \in DOMAIN cfg.regs |-> [k \in DOMAIN cfg.regs[r].fields |->
                        LET f == cfg.regs[r].fields[k] z == [i \in 1 .. f.n |-> 0] IN
                        [des |-> z, mir |-> z, wr |-> FALSE, rst |-> IF f.hasrst THEN [q \in {"HARD"} |-> Fit(f.rst, f.n)] ELSE [q \in {} |-> z]]]]]
Des(st, r) == Comp(st, r, [k \in DOMAIN Fl(st, r) |-> st.s[r][k].des])
Mir(st, r) == Comp(st, r, [k \in DOMAIN Fl(st, r) |-> st.s[r][k].mir])
Needs(st, r) == \E k \in DOMAIN Fl(st, r) : st.s[r][k].des # st.s[r][k].mir \/ Fl(st, r)[k].vol
Upd(st, r) == Comp(st, r, [k \in DOMAIN Fl(st, r) |-> U(Fl(st, r)[k].acc, st.s[r][k].des, st.s[r][k].mir)])
SetReg(st, r, v) == [st EXCEPT !.s[r] = [k \in DOMAIN @ |-> LET f == Fl(st, r)[k] IN [@[k] EXCEPT !.des = W(f.acc, @, Slice(v, f), st.s[r][k].wr)]]]
Both(fs, v) == [fs EXCEPT !.des = v, !.mir = v]
\* prediction: a write or a read seen on the bus obeys the policy, anything else is the new value
Pred(st, r, kind, v, raw) == [st EXCEPT !.s[r] = [k \in DOMAIN @ |->
    LET f == Fl(st, r)[k] q == @[k] x == Slice(v, f) IN
    CASE kind = "pw" -> [Both(q, IF raw THEN x ELSE W(f.acc, q.mir, x, q.wr)) EXCEPT !.wr = TRUE]
      [] kind = "pr" -> IF raw THEN Both(q, x) ELSE IF Readable(f.acc) THEN Both(q, R(f.acc, q.mir, x)) ELSE q
      [] OTHER -> Both(q, x)]]
Reset(st, r, kind) == [st EXCEPT !.s[r] = [k \in DOMAIN @ |-> IF kind \notin DOMAIN @[k].rst THEN @[k]
                                           ELSE [Both(@[k], @[k].rst[kind]) EXCEPT !.wr = IF kind = "HARD" THEN FALSE ELSE @]]]
SetRst(st, r, v, kind) == [st EXCEPT !.s[r] = [k \in DOMAIN @ |-> [@[k] EXCEPT !.rst = (kind :> Slice(v, Fl(st, r)[k])) @@ @]]]
\* what an access that did not complete left behind is not specified: take what is seen
Adopt(st, r, e) == [st EXCEPT !.s[r] = [k \in DOMAIN @ |-> LET f == Fl(st, r)[k] IN [@[k] EXCEPT !.des = Slice(e.des[r], f), !.mir = Slice(e.mir[r], f)]]]
ReadKind(acc) == IF acc \in {"RC", "WRC", "WSRC", "W1SRC", "W0SRC"} THEN 0 ELSE IF acc \in {"RS", "WRS", "WCRS", "W1CRS", "W0CRS"} THEN 1 ELSE 2
Mismatch(st, r, v) == \E k \in DOMAIN Fl(st, r) : LET f == Fl(st, r)[k] IN f.cmp /\ Readable(f.acc) /\ Slice(v, f) # st.s[r][k].mir
Flip(st, r, v) == IF st.regs[r].cb = "flip" THEN [i \in 1 .. st.regs[r].n |-> IF i % 3 = 1 THEN 1 - v[i] ELSE v[i]] ELSE [i \in 1 .. st.regs[r].n |-> v[i]]
\* ---- one access a = [k: "w"|"r", r, v, chk], on the rest of the observed device operations ----
\* p = [st, bus, bad, err, fail, val, skip]
Fin(p, r, e) == [p EXCEPT !.st = Adopt(@, r, e), !.fail = @ \union {r}]
Take(p, n) == [p EXCEPT !.bus = SubSeq(@, n + 1, Len(@))]
IsOp(p, i, w, r, pa) == Len(p.bus) >= i /\ p.bus[i].w = w /\ p.bus[i].r = r /\ p.bus[i].p = pa
Write(p, a, e) ==
    LET s1 == SetReg(p.st, a.r, a.v) v1 == Flip(p.st, a.r, a.v) q == [p EXCEPT !.st = s1] IN
    IF p.st.regs[a.r].cb = "abort" THEN Fin(q, a.r, e)
    ELSE IF e.path = "F" THEN
        IF ~IsOp(p, 1, TRUE, a.r, "F") THEN [p EXCEPT !.bad = "missing-write"]
        ELSE IF p.bus[1].v # v1 THEN [p EXCEPT !.bad = "written-value"]
        ELSE IF ~p.bus[1].ok THEN Take(Fin(q, a.r, e), 1)
        ELSE Take([q EXCEPT !.st = IF p.st.auto THEN Pred(s1, a.r, "pw", v1, FALSE) ELSE s1], 1)
    ELSE
        IF ~IsOp(p, 1, FALSE, a.r, "B") THEN [p EXCEPT !.bad = "missing-backdoor-read"]
        ELSE IF ~p.bus[1].ok THEN Take(Fin(q, a.r, e), 1)
        ELSE LET fin == Comp(s1, a.r, [k \in DOMAIN Fl(s1, a.r) |-> LET f == Fl(s1, a.r)[k] IN W(f.acc, Slice(p.bus[1].v, f), Slice(v1, f), s1.s[a.r][k].wr)]) IN
             IF ~IsOp(p, 2, TRUE, a.r, "B") THEN [p EXCEPT !.bad = "missing-backdoor-write"]
             ELSE IF p.bus[2].v # fin THEN [p EXCEPT !.bad = "written-value"]
             ELSE Take([q EXCEPT !.st = Pred(s1, a.r, "pw", fin, TRUE)], 2)
Read(p, a, e) ==
    LET pa == e.path IN
    IF ~IsOp(p, 1, FALSE, a.r, pa) THEN [p EXCEPT !.bad = "missing-read"]
    ELSE IF ~p.bus[1].ok THEN Take(Fin(p, a.r, e), 1)
    ELSE LET v == p.bus[1].v fs == Fl(p.st, a.r)
             seen == IF pa = "F" THEN v ELSE [i \in DOMAIN v |-> IF \E k \in DOMAIN fs : fs[k].lsb < i /\ i <= fs[k].lsb + fs[k].n /\ fs[k].acc \in {"WO", "WOC", "WOS", "WO1"} THEN 0 ELSE v[i]]
             after == [i \in DOMAIN v |-> LET K == {k \in DOMAIN fs : fs[k].lsb < i /\ i <= fs[k].lsb + fs[k].n} IN
                                          IF K = {} THEN v[i] ELSE LET x == ReadKind(fs[CHOOSE k \in K : TRUE].acc) IN IF x = 2 THEN v[i] ELSE x]
             mis == Mismatch(p.st, a.r, seen)
             q == [p EXCEPT !.val = seen, !.err = @ \/ (mis /\ (a.chk \/ (p.st.cor /\ (p.st.auto \/ pa = "B"))))]
         IN IF pa = "F" THEN Take([q EXCEPT !.st = IF p.st.auto THEN Pred(@, a.r, "pr", v, FALSE) ELSE @], 1)
            ELSE IF after # v /\ ~(IsOp(p, 2, TRUE, a.r, "B") /\ p.bus[2].v = after) THEN [p EXCEPT !.bad = "read-side-effect"]
            \* the mirror of a field that reading changes, or that cannot be read, is not specified after a backdoor read
            ELSE LET t == Pred(p.st, a.r, "pr", v, TRUE) o == Adopt(t, a.r, e) IN
                 Take([q EXCEPT !.st = [t EXCEPT !.s[a.r] = [k \in DOMAIN @ |-> IF ReadKind(fs[k].acc) = 2 /\ Readable(fs[k].acc) THEN @[k] ELSE o.s[a.r][k]]]],
                      IF after # v THEN 2 ELSE 1)
RECURSIVE Under(_, _, _)
Under(blks, b, top) == IF b = 0 THEN FALSE ELSE IF b = top THEN TRUE ELSE Under(blks, blks[b], top)
Skipped(p, a, e) == e.op = "bupdate" /\ \E r \in p.fail : Under(p.st.blks, p.st.regs[a.r].blk, p.st.regs[r].blk)
RECURSIVE Run(_, _, _)
Run(p, prog, e) == IF prog = <<>> \/ p.bad # "" THEN p
                   ELSE LET a == Head(prog) IN
                        Run(IF Skipped(p, a, e) THEN p ELSE IF a.k = "w" THEN Write(p, a, e) ELSE Read(p, a, e), Tail(prog), e)
\* registers of a block and its sub-blocks, in order
RECURSIVE Order(_, _)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Order(st, b) == SelectSeq([r \in DOMAIN st.regs |-> r], LAMBDA r : st.regs[r].blk = b)
                \o Flat([c \in DOMAIN st.blks |-> IF st.blks[c] = b THEN Order(st, c) ELSE <<>>])
WriteOp(r, v) == [k |-> "w", r |-> r, v |-> v, chk |-> FALSE]
ReadOp(r, chk) == [k |-> "r", r |-> r, v |-> <<>>, chk |-> chk]
UpdOp(st, r) == IF Needs(st, r) THEN <<WriteOp(r, Upd(st, r))>> ELSE <<>>
Prog(st, e) == CASE e.op = "write" -> <<WriteOp(e.r, e.v)>>
                 [] e.op = "read" -> <<ReadOp(e.r, FALSE)>>
                 [] e.op = "update" -> UpdOp(st, e.r)
                 [] e.op = "mirror" -> <<ReadOp(e.r, e.chk)>>
                 [] e.op = "bupdate" -> LET o == Order(st, e.b) IN Flat([i \in DOMAIN o |-> UpdOp(st, o[i])])
                 [] OTHER -> LET o == Order(st, e.b) IN [i \in DOMAIN o |-> ReadOp(o[i], e.chk)]
Accesses == {"write", "read", "update", "mirror", "bupdate", "bmirror"}
Result(st, e) == Run([st |-> st, bus |-> e.bus, bad |-> "", err |-> FALSE, fail |-> {}, val |-> <<>>], Prog(st, e), e)
RECURSIVE ResetAll(_, _, _)
ResetAll(st, rs, kind) == IF rs = <<>> THEN st ELSE ResetAll(Reset(st, Head(rs), kind), Tail(rs), kind)
Step(st, e) ==
    CASE e.op = "set" -> SetReg(st, e.r, e.v)
      [] e.op = "fset" -> [st EXCEPT !.s[e.r][e.f].des = W(Fl(st, e.r)[e.f].acc, @, Fit(e.v, Fl(st, e.r)[e.f].n), st.s[e.r][e.f].wr)]
      [] e.op = "reset" -> Reset(st, e.r, e.kind)
      [] e.op = "breset" -> ResetAll(st, Order(st, e.b), e.kind)
      [] e.op = "setrst" -> SetRst(st, e.r, e.v, e.kind)
      [] e.op = "pred" -> Pred(st, e.r, e.kind, e.v, e.path = "B")
      [] e.op \in Accesses -> Result(st, e).st
      [] OTHER -> st
Bad(st, e) ==
    IF e.op \in {"crash", "hang"} THEN e.op ELSE
    LET p == IF e.op \in Accesses THEN Result(st, e) ELSE [bad |-> ""] IN
    IF p.bad # "" THEN p.bad ELSE
    LET t == TLCEval(Step(st, e)) IN
    IF \E r \in DOMAIN st.regs : e.des[r] # Des(t, r) THEN "desired:" \o e.op
    ELSE IF \E r \in DOMAIN st.regs : e.mir[r] # Mir(t, r) THEN "mirror:" \o e.op
    ELSE IF \E r \in DOMAIN st.regs : e.needs[r] # Needs(t, r) THEN "needs-update"
    ELSE IF \E b \in DOMAIN st.blks : e.bneeds[b] # (\E r \in DOMAIN st.regs : Under(st.blks, st.regs[r].blk, b) /\ Needs(t, r)) THEN "block-needs-update"
    ELSE CASE e.op \in Accesses ->
                   IF p.bus # <<>> THEN "extra-access"
                   ELSE IF e.status # (IF p.fail = {} THEN "IS_OK" ELSE "NOT_OK") THEN "status"
                   ELSE IF e.op = "read" /\ p.fail = {} /\ e.val # p.val THEN "read-value"
                   ELSE IF e.err # p.err THEN "mismatch-report"
                   ELSE IF "hooks" \in DOMAIN e /\ p.fail = {} /\ Prog(st, e) # <<>> /\ e.hooks # (IF Prog(st, e)[1].k = "w" THEN <<"pre_write", "post_write">> ELSE <<"pre_read", "post_read">>) THEN "callbacks"
                   ELSE ""
           [] OTHER -> ""
Exp(st, e) == IF e.op \in {"crash", "hang"} THEN [none |-> 0] ELSE
              LET t == Step(st, e) IN
              [des |-> [r \in DOMAIN st.regs |-> Des(t, r)], mir |-> [r \in DOMAIN st.regs |-> Mir(t, r)],
               p |-> IF e.op \in Accesses THEN [bus |-> Result(st, e).bus, err |-> Result(st, e).err, fail |-> Result(st, e).fail, prog |-> Prog(st, e)] ELSE [bus |-> <<>>]]
=============================================================================
