----------------------------- MODULE Callbacks -----------------------------
(***************************************************************************)
(* Callbacks registered with objects (1..n) or with all objects (0).       *)
(*   add o c pre warn    mode c on old    call o ty who                    *)
(*   exit o ty val who ret      walk o ty fwd bwd (first/next, last/prev)  *)
(* cfg.ty[c]: the types of callback c ("A", "B", subtype of A "AA").       *)
(* cfg.ret[c]: what its function returns.  While a callback runs it may    *)
(* switch others off or on: who is the list of [c, sw] with sw the modes   *)
(* it set ([c, on] pairs).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0(cfg) == [ty |-> cfg.ty, ret |-> cfg.ret, all |-> <<>>, own |-> [o \in 1 .. cfg.n |-> <<>>], has |-> {},
               off |-> {}]
Set(s) == {s[i] : i \in DOMAIN s}
Q(st, o) == IF o = 0 THEN st.all ELSE IF o \in st.has THEN st.own[o] ELSE st.all
Put(s, c, pre) == IF c \in Set(s) THEN s ELSE IF pre THEN <<c>> \o s ELSE Append(s, c)
Rel(st, c, ty) == ty = "" \/ \E i \in DOMAIN st.ty[c] : st.ty[c][i] = ty
Live(st, o, ty) == SelectSeq(Q(st, o), LAMBDA c : Rel(st, c, ty) /\ c \notin st.off)
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]

Switch(off, c, on) == IF on THEN off \ {c} ELSE off \cup {c}
RECURSIVE Sw(_, _)
Sw(off, sw) == IF sw = <<>> THEN off ELSE Sw(Switch(off, sw[1].c, sw[1].on), Tail(sw))
\* one round over the callbacks q from position i: <<calls, off>>; the modes count when a callback's turn comes
RECURSIVE Walk(_, _, _, _, _)
Walk(st, q, ty, who, off) ==
  \* what is wrong with the calls who: "" or a clause; and the modes at the end
  IF q = <<>> THEN <<IF who = <<>> THEN "" ELSE "extra-call", off>>
  ELSE LET c == q[1] IN
       IF ~Rel(st, c, ty) \/ c \in off THEN Walk(st, Tail(q), ty, who, off)
       ELSE IF who = <<>> THEN <<"not-called", off>>
       ELSE IF who[1].c # c THEN <<"wrong-order", off>>
       ELSE Walk(st, Tail(q), ty, Tail(who), Sw(off, who[1].sw))
\* up to the first callback that returns val
RECURSIVE Upto(_, _, _, _)
Upto(st, s, val, i) == IF i > Len(s) THEN <<>> ELSE IF st.ret[s[i]] = val THEN <<s[i]>> ELSE <<s[i]>> \o Upto(st, s, val, i + 1)

Bad(st, e) ==
  CASE e.op \in {"crash", "hang"} -> e.op
    [] e.op = "add" -> IF e.warn # (e.c \in Set(Q(st, e.o))) THEN "add.warning" ELSE ""
    [] e.op = "mode" -> IF e.old # (e.c \notin st.off) THEN "mode" ELSE ""
    [] e.op = "call" -> LET w == Walk(st, Q(st, e.o), e.ty, e.who, st.off) IN IF w[1] = "" THEN "" ELSE "call." \o w[1]
    [] e.op = "exit" -> LET w == Upto(st, Live(st, e.o, e.ty), e.val, 1) IN
         IF e.who # w THEN "exit-on.calls"
         ELSE IF e.ret # (IF \E i \in DOMAIN w : st.ret[w[i]] = e.val THEN e.val ELSE 1 - e.val) THEN "exit-on.value" ELSE ""
    [] e.op = "walk" -> IF e.fwd # Live(st, e.o, e.ty) THEN "iterate.forward"
                        ELSE IF e.bwd # Rev(Live(st, e.o, e.ty)) THEN "iterate.backward" ELSE ""
    [] OTHER -> "unknown-event"
Step(st, e) ==
  CASE e.op = "add" /\ e.o = 0 ->
         IF e.c \in Set(st.all) THEN st
         ELSE [st EXCEPT !.all = Put(@, e.c, e.pre),
                         !.own = [o \in DOMAIN @ |-> IF o \in st.has THEN Put(@[o], e.c, e.pre) ELSE @[o]]]
    [] e.op = "add" -> [st EXCEPT !.own[e.o] = Put(Q(st, e.o), e.c, e.pre), !.has = @ \cup {e.o}]
    [] e.op = "mode" -> IF e.on = -1 THEN st ELSE [st EXCEPT !.off = Switch(@, e.c, e.on = 1)]
    [] e.op = "call" -> [st EXCEPT !.off = Walk(st, Q(st, e.o), e.ty, e.who, @)[2]]
    [] OTHER -> st
Exp(st, e) == IF e.op \in {"call", "exit", "walk"} THEN ToString(Live(st, e.o, e.ty)) ELSE ""
=============================================================================
