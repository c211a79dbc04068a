------------------------------ MODULE Semaphore ------------------------------
(* A semaphore with keys: requests are granted in the order in which they   *)
(* were made, each as soon as there are enough keys.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* q: requests that wait; due: requests that were granted and whose process has to go on before time does
Init0(cfg) == [n |-> cfg.n, q |-> <<>>, due |-> {}, now |-> 0]
Ids(q) == {q[i].w : i \in DOMAIN q}
RECURSIVE Serve(_)
Serve(st) == IF st.q # <<>> /\ Head(st.q).n <= st.n
             THEN Serve([st EXCEPT !.n = @ - Head(st.q).n, !.due = @ \cup {[w |-> Head(st.q).w, n |-> Head(st.q).n]}, !.q = Tail(@)])
             ELSE st
Due(st) == {x.w : x \in st.due}
Keys(st, w) == (CHOOSE x \in st.due : x.w = w).n
Act(st, e) ==
    CASE e.op = "req" -> Serve([st EXCEPT !.q = Append(@, [w |-> e.w, n |-> e.n])])
      [] e.op = "got" -> [st EXCEPT !.due = {x \in @ : x.w # e.w}]
      [] e.op = "put" -> Serve([st EXCEPT !.n = @ + e.n])
      [] e.op = "try" -> IF e.n <= st.n THEN [st EXCEPT !.n = @ - e.n] ELSE st
      [] OTHER -> st
Step(st, e) == IF e.op \in {"cfg", "crash", "hang"} THEN st ELSE Act([st EXCEPT !.now = e.t], e)
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op = "cfg" -> ""
      [] e.t > st.now /\ st.due # {} -> "granted-process-still-blocked"
      [] e.op = "got" /\ e.w \notin Due(st) -> "granted-without-keys-or-out-of-turn"
      [] e.op = "try" /\ e.r # (e.n <= st.n) -> "try"
      [] OTHER -> ""
Exp(st, e) == st
=============================================================================
