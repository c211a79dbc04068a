------------------------------ MODULE ConfigDb ------------------------------
(***************************************************************************)
(* The configuration database.  Paths are strings; st.ch maps every string *)
(* of the trace to its characters (for Match).                             *)
(*   phase b                 build phase entered / left                    *)
(*   set k ctx depth inst f v     (k: identity of the context)             *)
(*   get ctx inst f ok v     exists ctx inst f ok                          *)
(*   field path f v          a field after automatic configuration ("-":   *)
(*                           still its default)                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Glob

Init0(cfg) == [ch |-> cfg.ch, build |-> FALSE, q |-> <<>>]

Full(ctx, inst) == IF inst = "" THEN ctx ELSE IF ctx = "" THEN inst ELSE ctx \o "." \o inst
\* entries: most recently set first
Visible(st, path, f) == {i \in DOMAIN st.q : st.q[i].f = f /\ Match(st.ch[st.q[i].scope], st.ch[path])}
Wins(q, s) == CHOOSE i \in s : \A j \in s : q[i].prec > q[j].prec \/ (q[i].prec = q[j].prec /\ i <= j)
Look(st, path, f) == LET s == Visible(st, path, f) IN IF s = {} THEN "-" ELSE st.q[Wins(st.q, s)].v
Prec(st, depth) == IF st.build THEN 1000 - depth ELSE 1000

Bad(st, e) ==
  CASE e.op \in {"crash", "hang"} -> e.op
    [] e.op = "get" -> LET x == Look(st, Full(e.ctx, e.inst), e.f) IN
         IF x = "-" THEN IF e.ok THEN "get.found-nothing-set" ELSE IF e.v # "-" THEN "get.value-touched" ELSE ""
         ELSE IF ~e.ok THEN "get.not-found" ELSE IF e.v # x THEN "get.value" ELSE ""
    [] e.op = "exists" -> IF e.ok # (Look(st, Full(e.ctx, e.inst), e.f) # "-") THEN "exists" ELSE ""
    [] e.op = "field" -> IF e.v # Look(st, e.path, e.f) THEN "auto.field" ELSE ""
    [] OTHER -> ""
Step(st, e) ==
  CASE e.op = "phase" -> [st EXCEPT !.build = e.b]
    [] e.op = "set" ->
         LET sc == Full(e.ctx, e.inst)
             new == [k |-> e.k, scope |-> sc, f |-> e.f, v |-> e.v, prec |-> Prec(st, e.depth)]
         IN [st EXCEPT !.q = <<new>> \o SelectSeq(@, LAMBDA x : ~(x.k = e.k /\ x.scope = sc /\ x.f = e.f))]
    [] OTHER -> st
Exp(st, e) == IF e.op \in {"get", "exists"} THEN Look(st, Full(e.ctx, e.inst), e.f)
              ELSE IF e.op = "field" THEN Look(st, e.path, e.f) ELSE ""
=============================================================================
