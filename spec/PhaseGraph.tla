----------------------------- MODULE PhaseGraph -----------------------------
(***************************************************************************)
(* Building a phase schedule.  Nodes are names; schedule S ends at "S end".*)
(*   sched x                        an empty schedule                      *)
(*   add x to with after before     insert phase or schedule x ("" = none) *)
(*   before/after x y res           x.is_before(y), x.is_after(y)          *)
(*   find x y ok                    lookup of y starting from x            *)
(*   begin/finish x                 execution of phase x; end: all done    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0(cfg) == [N |-> {}, E |-> {}, scheds |-> {}, begun |-> {}, done |-> {}]
EndOf(st, x) == IF x \in st.scheds THEN x \o " end" ELSE x
Preds(st, x) == {e[1] : e \in {d \in st.E : d[2] = x}}
Succs(st, x) == {e[2] : e \in {d \in st.E : d[1] = x}}
RECURSIVE Close(_, _)
Close(st, s) == LET n == s \cup UNION {Succs(st, x) : x \in s} IN IF n = s THEN s ELSE Close(st, n)
Reach(st, x, y) == x # y /\ y \in Close(st, {x})
Add(st, e) ==
  LET b == e.x
      n == IF e.x \in st.scheds THEN e.x \o " end" ELSE e.x
      w == e.with
      bf == IF e.with = "" /\ e.after = "" /\ e.before = "" THEN EndOf(st, e.to) ELSE e.before
      af == IF e.after \in {"", e.to} THEN e.after ELSE EndOf(st, e.after)
      new == IF w # "" THEN {<<p, b>> : p \in Preds(st, w)} \cup {<<n, s>> : s \in Succs(st, EndOf(st, w))}
             ELSE IF af = "" THEN {<<p, b>> : p \in Preds(st, bf)} \cup {<<n, bf>>}
             ELSE IF bf = "" THEN {<<af, b>>} \cup {<<n, s>> : s \in Succs(st, af)}
             ELSE {<<af, b>>, <<n, bf>>}
      old == IF w # "" THEN {}
             ELSE IF af = "" THEN {d \in st.E : d[2] = bf}
             ELSE IF bf = "" THEN {d \in st.E : d[1] = af}
             ELSE {<<af, bf>>}
  IN [st EXCEPT !.N = @ \cup {b}, !.E = (@ \ old) \cup new]
IsEnd(st, x) == x \in {s \o " end" : s \in st.scheds}
Bad(st, e) ==
  CASE e.op \in {"crash", "hang"} -> e.op
    [] e.op = "before" -> IF e.res # Reach(st, e.x, e.y) THEN "is_before" ELSE ""
    [] e.op = "after" -> IF e.res # Reach(st, e.y, e.x) THEN "is_after" ELSE ""
    [] e.op = "find" -> IF e.ok # (e.y \in Close(st, {e.x}) \/ e.x \in Close(st, {e.y})) THEN "find" ELSE ""
    [] e.op = "begin" -> IF e.x \in st.begun THEN "run.twice"
                         ELSE IF \E y \in st.N \ st.scheds : y \notin st.done /\ Reach(st, y, e.x) THEN "run.order" ELSE ""
    [] e.op = "end" -> IF e.ran /\ st.done # {y \in st.N \ st.scheds : TRUE} THEN "run.missed" ELSE ""
    [] OTHER -> ""
Step(st, e) ==
  CASE e.op = "sched" -> [st EXCEPT !.N = @ \cup {e.x}, !.scheds = @ \cup {e.x}, !.E = @ \cup {<<e.x, e.x \o " end">>}]
    [] e.op = "add" -> Add(st, e)
    [] e.op = "begin" -> [st EXCEPT !.begun = @ \cup {e.x}]
    [] e.op = "finish" -> [st EXCEPT !.done = @ \cup {e.x}]
    [] OTHER -> st
Exp(st, e) == IF e.op \in {"before", "after", "find"} THEN st.E ELSE ""
=============================================================================
