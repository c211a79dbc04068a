---------------------------- MODULE MC_Predictor ----------------------------
(* Initiators on a bus, each doing whole accesses to its own register, part *)
(* by part in any order and interleaved with one another (or, with Wild,    *)
(* any operation at all): the mirror follows the device.                    *)
EXTENDS Predictor, Json
CONSTANTS MaxOps, MaxWild, Accs, Ens
\* cfg.wild: any operation at all
F(l, n, a) == [lsb |-> l, n |-> n, acc |-> a, vol |-> FALSE, cmp |-> TRUE, hasrst |-> FALSE, rst |-> [i \in 1 .. n |-> 0]]
Rg(n, off, fs) == [n |-> n, blk |-> 1, cb |-> "none", map |-> 1, off |-> off, rights |-> "RW", fields |-> fs]
Cfgs == {[maps |-> <<[par |-> 0, nb |-> 1, en |-> en, ba |-> TRUE, base |-> 16, off |-> 0]>>, ind |-> <<>>, cor |-> TRUE, wild |-> w,
          regs |-> <<Rg(16, 0, <<F(7, 2, "RW"), F(9, 1, a)>>), Rg(8, 2, <<F(0, 1, "RW")>>), Rg(24, 4, <<F(8, 9, "RW")>>)>>] : en \in Ens, a \in Accs, w \in BOOLEAN}
VARIABLES st, h, cfg, mem, act, seen, dirty
View == <<st, cfg, mem, act, seen, dirty, \E i \in DOMAIN h : h[i].op = "set">>
\* mem: what each register of the device holds; act[r]: the access under way, as parts to go; seen: published so far
Init == /\ cfg \in Cfgs /\ st = Init0(cfg) /\ h = <<>> /\ mem = [r \in 1 .. 3 |-> RMd!Mir(st.m, r)] /\ act = [r \in 1 .. 3 |-> {}] /\ seen = <<0, 0>> /\ dirty = FALSE
Vals(r) == {[b \in 1 .. cfg.regs[r].n |-> 0], [b \in 1 .. cfg.regs[r].n |-> IF \E k \in DOMAIN cfg.regs[r].fields : LET f == cfg.regs[r].fields[k] IN f.lsb < b /\ b <= f.lsb + f.n THEN 1 ELSE 0]}
DevW(r, v) == RMd!Mir(PredBe([st.m EXCEPT !.s[r] = [k \in DOMAIN @ |-> [@[k] EXCEPT !.mir = RMd!Slice(mem[r], st.m.regs[r].fields[k])]]], r, TRUE, v, AllOn), r)
DevR(r) == RMd!Mir(PredBe([st.m EXCEPT !.s[r] = [k \in DOMAIN @ |-> [@[k] EXCEPT !.mir = RMd!Slice(mem[r], st.m.regs[r].fields[k])]]], r, FALSE, mem[r], AllOn), r)
See(o) == LET q == Obs(st, o) IN /\ st' = q.st /\ seen' = <<seen[1] + Len(q.pub), seen[2] + (IF q.coll THEN 1 ELSE 0)>>
                                 /\ dirty' = (dirty \/ q.mis) /\ h' = Append(h, [op |-> "obs"] @@ o)
\* an access starts: the device changes when its last part is done, so that no one sees it half done
Start(r) == /\ act[r] = {}
            /\ \E w \in BOOLEAN, v \in Vals(r) :
                 /\ (~w) => v = CHOOSE x \in Vals(r) : TRUE
                 /\ act' = [act EXCEPT ![r] = {[w |-> w, v |-> v, i |-> i] : i \in DOMAIN st.as[r]}]
            /\ UNCHANGED <<st, h, cfg, mem, seen, dirty>>
Part(r) == \E p \in act[r] :
            LET v == IF p.w THEN p.v ELSE mem[r] IN
            /\ See(Ops(st, r, p.w, v)[p.i])
            /\ act' = [act EXCEPT ![r] = @ \ {p}]
            /\ mem' = IF act[r] = {p} THEN [mem EXCEPT ![r] = IF p.w THEN DevW(r, v) ELSE DevR(r)] ELSE mem
            /\ UNCHANGED cfg
AnyOp == \E r \in 1 .. 3, w \in BOOLEAN : \E v \in Vals(r), i \in DOMAIN st.as[r] : See(Ops(st, r, w, v)[i]) /\ UNCHANGED <<cfg, mem, act>>
\* a desired value set meanwhile does not matter to what is observed
SetOp == /\ ~cfg.wild /\ \A i \in DOMAIN h : h[i].op # "set"
         /\ \E r \in {1} : \E v \in Vals(r) : /\ v # RMd!Des(st.m, r)
                                           /\ st' = Step(st, [op |-> "set", r |-> r, v |-> v]) /\ h' = Append(h, [op |-> "set", r |-> r, v |-> v])
         /\ UNCHANGED <<cfg, mem, act, seen, dirty>>
Next == SetOp \/ IF cfg.wild THEN AnyOp ELSE \E r \in 1 .. 3 : Start(r) \/ Part(r)
Bound == Len(h) < IF cfg.wild THEN MaxWild ELSE MaxOps
Emit == h' # h => PrintT("@@GEN " \o ToJson([cfg |-> cfg, h |-> [i \in DOMAIN h' |-> [do |-> h'[i].op] @@ h'[i]]]))
\* a register with no access under way is mirrored exactly, and nothing was odd
Mirrors == ~cfg.wild => /\ \A r \in 1 .. 3 : act[r] = {} => RMd!Mir(st.m, r) = mem[r] /\ r \notin DOMAIN st.pend
                        /\ seen[2] = 0 /\ ~dirty
\* what is pending is incomplete
Incomplete == \A r \in DOMAIN st.pend : DOMAIN st.pend[r].parts # {} /\ DOMAIN st.pend[r].parts # DOMAIN st.as[r]
=============================================================================
