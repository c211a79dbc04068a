------------------------------ MODULE Comparator -----------------------------
(* In-order comparators: the n-th item of one stream is paired with the     *)
(* n-th of the other, compared and counted once, and every pair is          *)
(* published, as soon as both items have arrived.                           *)
EXTENDS Integers, Sequences, TLC
\* kind "alg": items of the first stream are transformed by adding cfg.k modulo cfg.n
\* items are [i |-> which object, v |-> content]
Init0(cfg) == [c |-> cfg, b |-> <<>>, a |-> <<>>, m |-> 0, mm |-> 0, err |-> 0, now |-> 0, last |-> <<>>]
Tr(st, v) == IF st.c.kind = "alg" THEN (v + st.c.k) % st.c.n ELSE v
Ready(st) == st.b # <<>> /\ st.a # <<>>
Act(st, e) ==
    CASE e.op = "b" -> [st EXCEPT !.b = Append(@, [i |-> e.i, v |-> Tr(st, e.v)])]
      [] e.op = "a" -> [st EXCEPT !.a = Append(@, [i |-> e.i, v |-> e.v])]
      [] e.op = "pair" /\ Ready(st) ->
            LET same == Head(st.b).v = Head(st.a).v IN
            [st EXCEPT !.b = Tail(@), !.a = Tail(@), !.last = <<Head(st.a).v, Head(st.b).v>>, !.m = IF same THEN @ + 1 ELSE @,
                       !.mm = IF same THEN @ ELSE @ + 1, !.err = IF same THEN @ ELSE @ + 1]
      [] e.op = "flush" -> [st EXCEPT !.m = 0, !.mm = 0]
      [] OTHER -> st
Step(st, e) == IF e.op \in {"cfg", "crash", "hang"} THEN st ELSE Act([st EXCEPT !.now = e.t], e)
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op = "cfg" -> ""
      [] e.t > st.now /\ Ready(st) -> "pair-not-compared"
      [] e.op = "pair" ->
            LET n == Step(st, e) IN
            CASE ~Ready(st) -> "pair-of-nothing"
              [] e.fv # Head(st.a).v \/ e.fi # Head(st.a).i -> "pair-first"
              [] e.sv # Head(st.b).v \/ (st.c.kind # "alg" /\ e.si # Head(st.b).i) -> "pair-second"
              [] e.m # n.m \/ e.mm # n.mm -> "counters"
              [] st.last # <<>> /\ e.same # (st.last = n.last) -> "pairs-compared"
              [] e.cl # n.last -> "pair-cloned"
              [] OTHER -> ""
      [] e.op = "obs" /\ (e.m # st.m \/ e.mm # st.mm) -> "counters"
      [] e.op = "obs" /\ e.err # st.err -> "mismatches-reported"
      [] OTHER -> ""
Exp(st, e) == st
=============================================================================
