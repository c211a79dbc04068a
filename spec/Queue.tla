-------------------------------- MODULE Queue --------------------------------
(* Queues stand for sequences.                                              *)
EXTENDS Integers, Sequences, TLC
\* the state is the sequence of the queues' contents; indices in events count from 0
Init0(cfg) == [q |-> [i \in 1 .. cfg.n |-> <<>>]]
Rng(s) == {s[i] : i \in DOMAIN s}
Del(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Ins(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
\* where an index of a slice points: <<>> stands for an index left out
Clamp(n, x, d) == IF x = <<>> THEN d ELSE LET v == IF x[1] < 0 THEN x[1] + n ELSE x[1] IN IF v < 0 THEN 0 ELSE IF v > n THEN n ELSE v
Idx(n, i) == IF i < 0 THEN i + n ELSE i
In(n, i) == Idx(n, i) >= 0 /\ Idx(n, i) < n
RECURSIVE With(_, _)
With(s, v) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = v THEN <<v>> ELSE <<>>) \o With(Tail(s), v)
First(s, v) == IF v \in Rng(s) THEN (CHOOSE i \in DOMAIN s : s[i] = v /\ \A j \in 1 .. i - 1 : s[j] # v) - 1 ELSE -1
Step(st, e) ==
    IF e.op \in {"cfg", "crash", "hang"} THEN st
    ELSE LET s == st.q[e.k] n == Len(s) to(t) == [st EXCEPT !.q[e.k] = t]
         IN CASE e.op = "push_back" -> to(Append(s, e.v))
              [] e.op = "push_front" -> to(<<e.v>> \o s)
              [] e.op = "pop_back" -> IF n = 0 THEN st ELSE to(SubSeq(s, 1, n - 1))
              [] e.op = "pop_front" -> IF n = 0 THEN st ELSE to(Tail(s))
              [] e.op = "insert" -> IF e.i < 0 \/ e.i >= n THEN st ELSE to(Ins(s, e.i, e.v))
              [] e.op = "delete" -> IF e.i = -1 THEN to(<<>>) ELSE IF e.i < -1 \/ e.i >= n THEN st ELSE to(Del(s, e.i))
              [] e.op = "set" -> IF In(n, e.i) THEN to([s EXCEPT ![Idx(n, e.i) + 1] = e.v]) ELSE st
              [] e.op = "copy" -> [st EXCEPT !.q[e.k] = st.q[e.from]]
              [] e.op = "clone" -> [st EXCEPT !.q = Append(@, s)]
              [] OTHER -> st
\* the result of an operation; "none": there is none to compare, "error": an exception
Res(st, e) ==
    LET s == st.q[e.k] n == Len(s)
    IN CASE e.op = "pop_back" -> IF n = 0 THEN <<"error">> ELSE <<s[n]>>
         [] e.op = "pop_front" -> IF n = 0 THEN <<"error">> ELSE <<s[1]>>
         [] e.op = "front" -> IF n = 0 THEN <<>> ELSE <<s[1]>>
         [] e.op = "back" -> IF n = 0 THEN <<>> ELSE <<s[n]>>
         [] e.op = "get" -> IF e.i < 0 \/ e.i >= n THEN <<"warning">> ELSE <<s[e.i + 1]>>
         [] e.op = "at" -> IF In(n, e.i) THEN <<s[Idx(n, e.i) + 1]>> ELSE <<"error">>
         [] e.op = "set" -> IF In(n, e.i) THEN <<>> ELSE <<"error">>
         [] e.op = "insert" -> IF e.i < 0 \/ e.i >= n THEN <<"warning">> ELSE <<>>
         [] e.op = "delete" -> IF e.i < -1 \/ e.i >= n THEN <<"warning">> ELSE <<>>
         [] e.op = "slice" -> LET a == Clamp(n, e.a, 0) b == Clamp(n, e.b, n) IN SubSeq(s, a + 1, b)
         [] e.op = "size" -> <<n>>
         [] e.op = "iter" -> s
         [] e.op = "find_with" -> With(s, e.v)
         [] e.op = "find_first" -> <<First(s, e.v)>>
         [] OTHER -> <<>>
Exp(st, e) == IF e.op \in {"cfg", "crash", "hang"} THEN [none |-> 0] ELSE [r |-> Res(st, e), q |-> Step(st, e).q]
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op = "cfg" -> ""
      [] OTHER -> IF e.r # Res(st, e) THEN "queue-" \o e.op ELSE IF e.q # Step(st, e).q THEN "queue-contents-after-" \o e.op ELSE ""
=============================================================================
