------------------------------ MODULE Resource ------------------------------
(***************************************************************************)
(* Resources and the resource pool.                                        *)
(*   new r name scope     ovr/set r     prec r n    prio r hi   ro r b     *)
(*   write r v err        read r v      wcall w r / wret w                 *)
(*   look scope name ids  byname scope name id      lscope scope ids       *)
(*   sort scope ids       dbset r scope name v      dbread scope name ok v *)
(*   dbwrite scope name v ok                                               *)
(* res[r]: name scope v ro mod prec; pool: name -> resources, first first. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Glob
Init0(cfg) == [ch |-> cfg.ch, now |-> 0, res |-> <<>>, q |-> <<>>, wt |-> <<>>]
\* q: all resources of the pool; the order matters among resources of one name
New(name, scope) == [name |-> name, scope |-> scope, v |-> "None", ro |-> FALSE, mod |-> FALSE, prec |-> 1000]
In(st, r, scope) == Match(st.ch[st.res[r].scope], st.ch[scope])
Look(st, scope, name) == SelectSeq(st.q, LAMBDA r : st.res[r].name = name /\ In(st, r, scope))
Best(st, s) == IF s = <<>> THEN 0 ELSE s[CHOOSE i \in DOMAIN s : \A j \in DOMAIN s :
                   st.res[s[i]].prec > st.res[s[j]].prec \/ (st.res[s[i]].prec = st.res[s[j]].prec /\ i <= j)]
Set(s) == {s[i] : i \in DOMAIN s}
Same(st, ids, s) == \* the same resources, each name in the same order
   /\ Len(ids) = Len(s) /\ Set(ids) = Set(s)
   /\ \A n \in {st.res[s[i]].name : i \in DOMAIN s} :
        SelectSeq(ids, LAMBDA r : st.res[r].name = n) = SelectSeq(s, LAMBDA r : st.res[r].name = n)
Sorted(st, ids, s) ==
   /\ Len(ids) = Len(s) /\ Set(ids) = Set(s)
   /\ \A i \in 1 .. Len(ids) - 1 : st.res[ids[i]].prec >= st.res[ids[i + 1]].prec
   /\ \A n \in {st.res[s[i]].name : i \in DOMAIN s} : \A p \in {st.res[s[i]].prec : i \in DOMAIN s} :
        LET F(r) == st.res[r].name = n /\ st.res[r].prec = p IN SelectSeq(ids, F) = SelectSeq(s, F)
Write(st, r, v) == IF st.res[r].ro \/ st.res[r].v = v THEN st
                   ELSE [st EXCEPT !.res[r].v = v, !.res[r].mod = TRUE]
Late(st) == IF \E i \in DOMAIN st.wt : st.res[st.wt[i].r].mod THEN "wait.not-woken" ELSE ""

Bad(st, e) ==
  IF e.op \in {"crash", "hang"} THEN e.op
  ELSE IF e.t > st.now /\ Late(st) # "" THEN Late(st)
  ELSE CASE e.op = "write" -> IF e.err # st.res[e.r].ro THEN "write.read-only" ELSE ""
    [] e.op = "read" -> IF e.v # st.res[e.r].v THEN "read" ELSE ""
    [] e.op = "isro" -> IF e.b # st.res[e.r].ro THEN "read-only" ELSE ""
    [] e.op = "look" -> IF e.ids # Look(st, e.scope, e.name) THEN "lookup.name" ELSE ""
    [] e.op = "byname" -> IF e.id # Best(st, Look(st, e.scope, e.name)) THEN "lookup.precedence" ELSE ""
    [] e.op = "lscope" -> IF ~Same(st, e.ids, SelectSeq(st.q, LAMBDA r : In(st, r, e.scope))) THEN "lookup.scope" ELSE ""
    [] e.op = "sort" -> IF ~Sorted(st, e.ids, SelectSeq(st.q, LAMBDA r : In(st, r, e.scope))) THEN "sort" ELSE ""
    [] e.op = "dbread" -> LET b == Best(st, Look(st, e.scope, e.name)) IN
         IF e.ok # (b # 0) THEN "db.found" ELSE IF e.v # (IF b = 0 THEN "-" ELSE st.res[b].v) THEN "db.value" ELSE ""
    [] e.op = "dbwrite" -> LET b == Best(st, Look(st, e.scope, e.name)) IN
         IF e.ok # (b # 0) THEN "db.write-found" ELSE IF e.err # (b # 0 /\ st.res[b].ro) THEN "write.read-only" ELSE ""
    [] e.op = "wret" -> IF \E i \in DOMAIN st.wt : st.wt[i].w = e.w /\ st.res[st.wt[i].r].mod THEN "" ELSE "wait.woken-early"
    [] OTHER -> ""
Act(st, e) ==
  CASE e.op = "new" -> [st EXCEPT !.res = Append(@, New(e.name, e.scope))]
    [] e.op = "set" -> [st EXCEPT !.q = Append(@, e.r)]
    [] e.op = "ovr" -> [st EXCEPT !.q = <<e.r>> \o @]
    [] e.op = "dbset" -> [Write([st EXCEPT !.res = Append(@, New(e.name, e.scope))], Len(st.res) + 1, e.v) EXCEPT !.q = Append(@, Len(st.res) + 1)]
    [] e.op = "prio" -> IF e.r \notin Set(st.q) THEN st
                        ELSE LET o == SelectSeq(st.q, LAMBDA r : r # e.r) IN [st EXCEPT !.q = IF e.hi THEN <<e.r>> \o o ELSE o \o <<e.r>>]
    [] e.op = "prec" -> [st EXCEPT !.res[e.r].prec = e.n]
    [] e.op = "ro" -> [st EXCEPT !.res[e.r].ro = e.b]
    [] e.op = "write" -> Write(st, e.r, e.v)
    [] e.op = "dbwrite" -> LET b == Best(st, Look(st, e.scope, e.name)) IN IF b = 0 THEN st ELSE Write(st, b, e.v)
    [] e.op = "wcall" -> [st EXCEPT !.wt = Append(@, [w |-> e.w, r |-> e.r])]
    [] e.op = "wret" -> LET i == CHOOSE i \in DOMAIN st.wt : st.wt[i].w = e.w IN
                        [st EXCEPT !.wt = SelectSeq(@, LAMBDA x : x.w # e.w), !.res[st.wt[i].r].mod = FALSE]
    [] OTHER -> st
Step(st, e) == Act([st EXCEPT !.now = e.t], e)
Exp(st, e) == CASE e.op \in {"look", "byname", "dbread", "dbwrite"} -> ToString(Look(st, e.scope, e.name))
                [] e.op \in {"lscope", "sort"} -> ToString(SelectSeq(st.q, LAMBDA r : In(st, r, e.scope)))
                [] OTHER -> ""
=============================================================================
