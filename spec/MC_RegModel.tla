----------------------------- MODULE MC_RegModel -----------------------------
(* A register of two fields and a device that obeys the field policies: as  *)
(* long as everything goes through the model, the mirror is the device, and *)
(* updating makes the device what was desired.                              *)
EXTENDS RegModel, Json
CONSTANTS Accs, MaxOps, Values
V4 == {<<0, 0, 1, 0>>, <<1, 0, 0, 1>>, <<1, 1, 1, 1>>}
V16 == [1 .. 4 -> {0, 1}]
VARIABLES st, h, cfg, dev, prev
View == <<st, dev, cfg, prev>>
F(l, n, a, v) == [lsb |-> l, n |-> n, acc |-> a, vol |-> v, cmp |-> TRUE, hasrst |-> TRUE, rst |-> [i \in 1 .. n |-> 1]]
Init == \E a, b \in Accs, auto \in BOOLEAN, vol \in BOOLEAN :
    /\ cfg = [regs |-> <<[n |-> 4, blk |-> 1, cb |-> "none", fields |-> <<F(0, 1, a, FALSE), F(2, 2, b, vol)>>]>>, blks |-> <<0>>, auto |-> auto, cor |-> FALSE]
    /\ st = Init0(cfg) /\ h = <<>> /\ dev = [k \in {1, 2} |-> [v |-> [i \in 1 .. k |-> 0], wr |-> FALSE]]
    /\ prev = [op |-> "none", st |-> 0, before |-> dev]
Fs == cfg.regs[1].fields
DevV == Comp(st, 1, [k \in {1, 2} |-> dev[k].v])
DevW(v) == [k \in {1, 2} |-> [v |-> W(Fs[k].acc, dev[k].v, Slice(v, Fs[k]), dev[k].wr), wr |-> TRUE]]
DevR == [k \in {1, 2} |-> [dev[k] EXCEPT !.v = IF ReadKind(Fs[k].acc) = 2 THEN @ ELSE [i \in DOMAIN @ |-> ReadKind(Fs[k].acc)]]]
\* what a read returns: fields that cannot be read return 0
RdV == Comp(st, 1, [k \in {1, 2} |-> IF Readable(Fs[k].acc) THEN dev[k].v ELSE [i \in DOMAIN dev[k].v |-> 0]])
Do(e, d) == /\ st' = Step(st, e) /\ dev' = d /\ h' = Append(h, e) /\ prev' = [op |-> e.op, st |-> st, before |-> dev] /\ UNCHANGED cfg
Op(w, v) == <<[w |-> w, r |-> 1, v |-> v, ok |-> TRUE, p |-> "F"]>>
Acc(op, x, bus) == [op |-> op, r |-> 1, path |-> "F", bus |-> bus] @@ x
Next == \/ \E v \in Values : Do([op |-> "set", r |-> 1, v |-> v], dev)
        \/ \E v \in Values : Do(Acc("write", [v |-> v], Op(TRUE, v)), DevW(v))
        \/ LET u == Upd(st, 1) IN Do(Acc("update", [v |-> <<>>], IF Needs(st, 1) THEN Op(TRUE, u) ELSE <<>>), IF Needs(st, 1) THEN DevW(u) ELSE dev)
        \/ Do(Acc("read", [v |-> <<>>], Op(FALSE, RdV)), DevR)
        \/ Do(Acc("mirror", [chk |-> TRUE], Op(FALSE, RdV)), DevR)
        \/ Do([op |-> "reset", r |-> 1, kind |-> "HARD"], [k \in {1, 2} |-> [v |-> Fs[k].rst, wr |-> FALSE]])
Bound == Len(h) < MaxOps
Emit == PrintT("@@GEN " \o ToJson([cfg |-> cfg, h |-> [i \in DOMAIN h' |-> [do |-> h'[i].op] @@ h'[i]]]))
\* ---- the mirror is the device ----
MirrorIsDevice == cfg.auto => \A k \in {1, 2} : st.s[1][k].mir = dev[k].v
\* predicted accesses leave nothing to update, except what was set since
Settled == (cfg.auto /\ prev.op \in {"write", "update", "reset"}) =>
              \A k \in {1, 2} : (prev.op = "update" /\ ~Needs(prev.st, 1)) \/ st.s[1][k].des = st.s[1][k].mir
\* update brings the device to the desired value, for policies that can reach every value
Reaches == prev.op = "update" /\ cfg.auto => \A k \in {1, 2} :
              Fs[k].acc \in {"RW", "WO", "W1T", "W0T", "WRC", "WRS"} => dev[k].v = prev.st.s[1][k].des
\* setting alone never touches the mirror or the device
SetOnly == prev.op = "set" => dev = prev.before /\ \A k \in {1, 2} : st.s[1][k].mir = prev.st.s[1][k].mir
\* a field can only be told to become what its policy allows to be reached with one write
Honest == prev.op = "update" /\ cfg.auto /\ (\A k \in {1, 2} : prev.st.s[1][k].mir = prev.before[k].v) =>
              \A k \in {1, 2} : Fs[k].acc \in {"RO", "RC", "RS"} => dev[k].v = prev.before[k].v
=============================================================================
