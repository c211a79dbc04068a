----------------------------- MODULE MC_Factory -----------------------------
(* Every history of up to MaxOps overrides among three types, by type, by    *)
(* name and by instance, then every creation.                                *)
EXTENDS Factory, Json
CONSTANTS MaxOps
VARIABLES st, h, log
View == <<st, log>>
Ts == {"TA", "TB", "TC"}
Paths == <<"", "t.x", "t.y">>
Chars == ("" :> <<>>) @@ ("t.x" :> <<"t", ".", "x">>) @@ ("t.y" :> <<"t", ".", "y">>) @@ ("*" :> <<"*">>) @@ ("*x" :> <<"*", "x">>)
Init == st = [Init0([ch |-> Chars]) EXCEPT !.types = Ts] /\ h = <<>> /\ log = <<>>
Do(e, a) == Len(log) < MaxOps /\ st' = Step(st, e) /\ h' = Append(h, a) /\ log' = Append(log, e)
Next == \/ \E o \in Ts, r \in Ts, rep \in BOOLEAN, how \in {"type", "name"} : (o # r \/ how = "type") /\ (how = "name" => rep) /\
             Do([op |-> "tov", o |-> o, r |-> r, rep |-> rep, how |-> how, err |-> FALSE], [do |-> "tov", o |-> o, r |-> r, rep |-> rep, how |-> how])
        \/ \E o \in {"TA", "TB"}, r \in {"TB", "TC"}, p \in {"*x", "*"} : Do([op |-> "iov", o |-> o, r |-> r, path |-> p], [do |-> "iov", o |-> o, r |-> r, path |-> p])
Emit == PrintT("@@GEN " \o ToJson(h'))
\* what the log says applies to t at p
Hit(e, t, p) == e.op = "iov" /\ e.o = t /\ p # "" /\ (e.path = "*" \/ p = "t.x")
Tv(t) == LET s == {i \in DOMAIN log : log[i].op = "tov" /\ log[i].o = t}
             k == {i \in s : log[i].rep \/ \A j \in s : j >= i} IN
         IF s = {} THEN "" ELSE log[CHOOSE i \in k : \A j \in k : j <= i].r
Nx(t, p) == LET s == {i \in DOMAIN log : Hit(log[i], t, p)} IN IF s # {} THEN log[Min(s)].r ELSE IF Tv(t) = "" THEN t ELSE Tv(t)
Pow(t, p, n) == IF n = 0 THEN t ELSE LET a == Nx(t, p) IN IF n = 1 THEN a ELSE LET b == Nx(a, p) IN IF n = 2 THEN b ELSE Nx(b, p)
\* without a loop the result is a fixed point that follows from repeated application
FixedPoint == \A t \in Ts : \A i \in DOMAIN Paths : LET m == Resolve(st, t, Paths[i], {}) IN
   /\ m.loop <=> Nx(Pow(t, Paths[i], 3), Paths[i]) # Pow(t, Paths[i], 3)
   /\ ~m.loop => m.res = Pow(t, Paths[i], 3)
=============================================================================
