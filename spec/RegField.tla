----------------------------- MODULE RegField -----------------------------
(* One register field: desired and mirrored value, resets, policy. The      *)
(* register is in two maps with their own rights.                           *)
EXTENDS RegPolicy, TLC
Zero(n) == [i \in 1 .. n |-> 0]
\* cfg: [acc, n, vol, rights: <<r1, r2>>, rst: None or bits, cbs: observers attached]
Init0(cfg) == [acc |-> cfg.acc, n |-> cfg.n, vol |-> cfg.vol, rights |-> cfg.rights, cbs |-> cfg.cbs,
               rst |-> IF cfg.hasrst THEN [k \in {"HARD"} |-> Fit(cfg.rst, cfg.n)] ELSE [k \in {} |-> <<>>],
               written |-> FALSE, des |-> Zero(cfg.n), mir |-> Zero(cfg.n)]
\* map 0 is the backdoor map
Acc(st, m) == IF m = 0 THEN st.acc ELSE Through(st.acc, st.rights[m])
Both(st, v) == [st EXCEPT !.mir = v, !.des = v]
PV(st, e) == LET v == Fit(e.v, st.n) a == Acc(st, e.map) pol == e.path # "B" IN
             CASE e.op = "pw" -> IF pol THEN W(a, st.mir, v, st.written) ELSE v
               [] e.op = "pr" -> IF pol THEN R(a, st.mir, v) ELSE v
               [] OTHER -> v
\* a read through a map that cannot read the field tells nothing
Mute(st, e) == e.op = "pr" /\ e.path # "B" /\ ~Readable(Acc(st, e.map))
Step(st, e) ==
    CASE e.op = "set" -> [st EXCEPT !.des = W(st.acc, st.des, Fit(e.v, st.n), st.written)]
      [] e.op \in {"pw", "pr", "pd"} ->
           IF ~e.be \/ Mute(st, e) THEN st
           ELSE [Both(st, PV(st, e)) EXCEPT !.written = @ \/ e.op = "pw"]
      [] e.op = "reset" -> IF e.kind \notin DOMAIN st.rst THEN st
                           ELSE [Both(st, st.rst[e.kind]) EXCEPT !.written = IF e.kind = "HARD" THEN FALSE ELSE @]
      [] e.op = "setrst" -> [st EXCEPT !.rst = (e.kind :> Fit(e.v, st.n)) @@ @]
      [] e.op = "delrst" -> [st EXCEPT !.rst = [k \in DOMAIN @ \ {e.kind} |-> @[k]]]
      [] e.op = "acc" -> [st EXCEPT !.acc = IF e.a \in Policies THEN e.a ELSE @]
      [] e.op = "vol" -> [st EXCEPT !.vol = e.v]
      [] OTHER -> st
CbExp(st, e) == IF ~st.cbs \/ e.op \notin {"pw", "pr"} \/ ~e.be \/ Mute(st, e) THEN <<>>
                ELSE <<[prev |-> st.mir, v |-> PV(st, e), k |-> e.op]>>
Bad(st, e) == IF e.op \in {"crash", "hang"} THEN e.op ELSE
    LET t == Step(st, e) IN
    IF e.des # t.des THEN "desired:" \o e.op
    ELSE IF e.mir # t.mir THEN "mirror:" \o e.op
    ELSE IF e.nu # (t.des # t.mir \/ t.vol) THEN "needs-update"
    ELSE IF e.upd # U(t.acc, t.des, t.mir) THEN "update-value"
    ELSE IF e.macc # <<Acc(t, 1), Acc(t, 2), Acc(t, 0)>> THEN "access-in-map"
    ELSE IF e.vr # t.des THEN "value"
    ELSE CASE e.op \in {"pw", "pr", "pd"} -> IF ~e.ok THEN "predict-status" ELSE IF e.cb # CbExp(st, e) THEN "callbacks" ELSE ""
           [] e.op = "acc" -> IF e.old # st.acc THEN "set-access-returns" ELSE IF e.err # (e.a \notin Policies) THEN "bad-policy" ELSE ""
           [] e.op = "getrst" -> IF e.v # (IF e.kind \in DOMAIN st.rst THEN st.rst[e.kind] ELSE st.des) THEN "get-reset"
                                 ELSE IF e.has # (e.kind \in DOMAIN st.rst) THEN "has-reset" ELSE ""
           [] OTHER -> ""
Exp(st, e) == IF e.op \in {"crash", "hang"} THEN st
              ELSE LET t == Step(st, e) IN [des |-> t.des, mir |-> t.mir, upd |-> U(t.acc, t.des, t.mir), acc |-> t.acc, cb |-> IF e.op \in {"pw", "pr"} THEN CbExp(st, e) ELSE <<>>]
=============================================================================
