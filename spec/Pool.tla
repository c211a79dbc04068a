-------------------------------- MODULE Pool --------------------------------
(* Pools stand for maps which remember the order in which keys were added.  *)
EXTENDS Integers, Sequences, TLC
\* cfg.kinds[p] is "plain", "make" (a missing key is given a new value when it is asked for) or "obj" (the same, the value is
\* an object named like the key);  a pool is [keys: seq, v: values by position, ptr: position of the iteration, 0 before the first]
\* values made by pools are numbered from 100 in the order of their creation
Empty == [keys |-> <<>>, v |-> <<>>, ptr |-> 0]
Init0(cfg) == [kind |-> cfg.kinds, p |-> [i \in DOMAIN cfg.kinds |-> Empty], made |-> 0, cut |-> [i \in DOMAIN cfg.kinds |-> FALSE]]
Pos(s, k) == IF \E i \in DOMAIN s.keys : s.keys[i] = k THEN CHOOSE i \in DOMAIN s.keys : s.keys[i] = k ELSE 0
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put(s, k, v) == LET i == Pos(s, k) IN IF i > 0 THEN [s EXCEPT !.v[i] = v] ELSE [s EXCEPT !.keys = Append(@, k), !.v = Append(@, v)]
Creates(st, e) == e.op = "get" /\ Pos(st.p[e.k], e.key) = 0 /\ st.kind[e.k] # "plain"
Step(st, e) ==
    IF e.op \in {"cfg", "crash", "hang"} THEN st
    ELSE LET s == st.p[e.k] n == Len(s.keys) to(t) == [st EXCEPT !.p[e.k] = t]
         IN CASE e.op \in {"add", "set"} -> to(Put(s, e.key, e.v))
              [] Creates(st, e) -> [to(Put(s, e.key, 100 + st.made)) EXCEPT !.made = @ + 1]
              [] e.op = "delete" -> LET i == Pos(s, e.key)
                                    IN IF i = 0 THEN st
                                       ELSE [to([keys |-> Del(s.keys, i), v |-> Del(s.v, i), ptr |-> IF i <= s.ptr THEN s.ptr - 1 ELSE s.ptr])
                                             EXCEPT !.cut[e.k] = @ \/ i = s.ptr]
              [] e.op = "clear" -> [to(Empty) EXCEPT !.cut[e.k] = FALSE]
              [] e.op = "first" -> IF n = 0 THEN st ELSE [to([s EXCEPT !.ptr = 1]) EXCEPT !.cut[e.k] = FALSE]
              [] e.op = "last" -> IF n = 0 THEN st ELSE [to([s EXCEPT !.ptr = n]) EXCEPT !.cut[e.k] = FALSE]
              [] e.op = "next" -> IF s.ptr < n THEN [to([s EXCEPT !.ptr = @ + 1]) EXCEPT !.cut[e.k] = FALSE] ELSE st
              [] e.op = "prev" -> IF s.ptr > 1 THEN to([s EXCEPT !.ptr = @ - 1]) ELSE st
              [] e.op = "copy" -> [to([st.p[e.from] EXCEPT !.ptr = 0]) EXCEPT !.cut[e.k] = FALSE]
              [] e.op = "clone" -> [st EXCEPT !.p = Append(@, [s EXCEPT !.ptr = 0]), !.kind = Append(@, st.kind[e.k]), !.cut = Append(@, FALSE)]
              [] OTHER -> st
Content(s) == [keys |-> s.keys, v |-> s.v]
\* after the key at which the iteration stands was deleted, where it goes back to is not defined
Undef(st, e) == e.op \in {"prev", "has_prev"} /\ st.cut[e.k]
Res(st, e) ==
    LET s == st.p[e.k] n == Len(s.keys) i == IF e.op \in {"get", "at", "exists", "in", "delete"} THEN Pos(s, e.key) ELSE 0
    IN CASE e.op = "get" -> IF i > 0 THEN <<s.v[i]>> ELSE IF st.kind[e.k] = "plain" THEN <<>> ELSE <<100 + st.made>>
         [] e.op = "at" -> IF i > 0 THEN <<s.v[i]>> ELSE <<"error">>
         [] e.op = "delete" -> IF i = 0 /\ st.kind[e.k] = "obj" THEN <<"warning">> ELSE <<>>
         [] e.op \in {"exists", "in"} -> <<i > 0>>
         [] e.op \in {"num", "len"} -> <<n>>
         [] e.op = "iter" -> s.keys
         [] e.op = "first" -> IF n = 0 THEN <<>> ELSE <<s.keys[1]>>
         [] e.op = "last" -> IF n = 0 THEN <<>> ELSE <<s.keys[n]>>
         [] e.op = "next" -> IF s.ptr < n THEN <<s.keys[s.ptr + 1]>> ELSE <<>>
         [] e.op = "prev" -> IF s.ptr > 1 THEN <<s.keys[s.ptr - 1]>> ELSE <<>>
         [] e.op = "has_first" -> <<n > 0>>
         [] e.op = "has_last" -> <<n > 0>>
         [] e.op = "has_next" -> <<s.ptr < n>>
         [] e.op = "has_prev" -> <<s.ptr > 1>>
         [] e.op = "print" -> s.v
         [] OTHER -> <<>>
Contents(st) == [k \in DOMAIN st.p |-> Content(st.p[k])]
Exp(st, e) == IF e.op \in {"cfg", "crash", "hang"} THEN [none |-> 0] ELSE [r |-> Res(st, e), p |-> Contents(Step(st, e))]
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op \in {"cfg", "global"} -> IF e.op = "global" /\ ~(e.one /\ e.kind) THEN "global-pool" ELSE ""
      [] e.op = "named" -> IF e.r = e.key THEN "" ELSE "named"
      [] OTHER -> IF e.r # Res(st, e) /\ ~Undef(st, e) THEN "pool-" \o e.op
                  ELSE IF e.p # Contents(Step(st, e)) THEN "pool-contents-after-" \o e.op ELSE ""
=============================================================================
