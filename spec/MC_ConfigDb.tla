---------------------------- MODULE MC_ConfigDb ----------------------------
(* Every history of up to MaxSets settings, made before the test, during the *)
(* build of a component at depth 1, 2 or 3, and at run time.                 *)
EXTENDS ConfigDb, Json
CONSTANTS MaxSets
VARIABLES st, h, at, log
View == <<st, at, log>>
Chars == [x \in {"", "uvm_test_top", "uvm_test_top.env", "uvm_test_top.env.drv", "uvm_test_top.e2.drv", "uvm_test_top.*", "uvm_test_top.*drv",
                 "uvm_test_top.env.*", "uvm_test_top.env.d*", "*drv"} |-> <<>>]
\* matching itself is the business of Glob; here it is given by a table
Table == ("uvm_test_top" :> {1, 2, 3, 4}) @@ ("uvm_test_top.env" :> {2, 3}) @@ ("uvm_test_top.*" :> {2, 3, 4}) @@ ("uvm_test_top.env.drv" :> {3})
         @@ ("uvm_test_top.*drv" :> {3, 4}) @@ ("uvm_test_top.env.*" :> {3}) @@ ("*drv" :> {3, 4})
Paths == <<"uvm_test_top", "uvm_test_top.env", "uvm_test_top.env.drv", "uvm_test_top.e2.drv">>
Hits(scope, p) == p \in Table[scope]
Stages == <<[at |-> "pre", ctx |-> "", d |-> 0], [at |-> "uvm_test_top", ctx |-> "uvm_test_top", d |-> 1],
            [at |-> "uvm_test_top.env", ctx |-> "uvm_test_top.env", d |-> 2], [at |-> "uvm_test_top.env.drv", ctx |-> "uvm_test_top.env.drv", d |-> 3],
            [at |-> "run", ctx |-> "uvm_test_top", d |-> 1]>>
Scopes(i) == CASE i = 1 -> {"uvm_test_top.*", "*drv"} [] i = 2 -> {"", "*drv", "env"} [] i = 3 -> {"", "*"} [] i = 4 -> {""} [] OTHER -> {"", "env.drv", "*drv"}
Init == st = [Init0([ch |-> Chars]) EXCEPT !.build = FALSE] /\ h = <<>> /\ at = 1 /\ log = <<>>
Set(inst) == LET s == Stages[at] v == ToString(Len(log)) k == IF at = 5 THEN 1 ELSE at - 1
                 e == [op |-> "set", k |-> k, ctx |-> s.ctx, depth |-> s.d, inst |-> inst, f |-> "fa", v |-> v] IN
   /\ Len(log) < MaxSets /\ st' = Step(st, e)
   /\ log' = Append(log, [k |-> k, scope |-> Full(s.ctx, inst), prec |-> IF at \in 2 .. 4 THEN 1000 - s.d ELSE 1000, v |-> v])
   /\ h' = Append(h, [do |-> "set", at |-> s.at, ctx |-> IF at = 1 THEN "none" ELSE "me", inst |-> inst, f |-> "fa", v |-> Len(log)])
   /\ UNCHANGED at
Go == at < 5 /\ at' = at + 1 /\ st' = Step(st, [op |-> "phase", b |-> at' \in 2 .. 4]) /\ UNCHANGED <<h, log>>
Next == Go \/ \E inst \in Scopes(at) : Set(inst)
Emit == h' = h \/ PrintT("@@GEN " \o ToJson(h'))
\* from the history: settings that a later one of the same context and scope replaced do not count;
\* of the others the last one with the highest precedence does
Alive == {i \in DOMAIN log : ~\E j \in DOMAIN log : j > i /\ log[j].k = log[i].k /\ log[j].scope = log[i].scope}
Want(p) == LET m == {i \in Alive : Hits(log[i].scope, p)} IN
           IF m = {} THEN "-" ELSE log[CHOOSE i \in m : \A j \in m : log[i].prec > log[j].prec \/ (log[i].prec = log[j].prec /\ i >= j)].v
Got(p) == LET s == {i \in DOMAIN st.q : Hits(st.q[i].scope, p)} IN IF s = {} THEN "-" ELSE st.q[Wins(st.q, s)].v
LastWins == \A p \in DOMAIN Paths : Got(p) = Want(p)
RunTimeWins == \A p \in DOMAIN Paths : (at = 5 /\ log # <<>> /\ Hits(log[Len(log)].scope, p) /\ log[Len(log)].prec = 1000) => Got(p) = log[Len(log)].v
=============================================================================
