--------------------------------- MODULE Dap ---------------------------------
(* Containers which restrict when their value can be set and read.          *)
EXTENDS Integers, Sequences, TLC
\* kinds: "sbg" set before get, "gtl" get to lock, "sl" simple lock; 0 stands for no value
Init0(cfg) == [d |-> [i \in DOMAIN cfg.kinds |-> [k |-> cfg.kinds[i], v |-> 0, flag |-> FALSE]]]
\* flag: has been set (sbg), has been read (gtl), is locked (sl)
Free(d) == d.k = "sbg" \/ ~d.flag
Readable(d) == d.k # "sbg" \/ d.flag
Wr(d, v) == IF ~Free(d) THEN d ELSE IF d.k = "sbg" THEN [d EXCEPT !.v = v, !.flag = TRUE] ELSE [d EXCEPT !.v = v]
Rd(d) == IF d.k = "gtl" THEN [d EXCEPT !.flag = TRUE] ELSE d
Step(st, e) ==
    IF e.op \in {"cfg", "crash", "hang"} THEN st
    ELSE LET d == st.d[e.i] to(x) == [st EXCEPT !.d[e.i] = x]
         IN CASE e.op \in {"set", "try_set"} -> to(Wr(d, e.v))
              [] e.op \in {"get", "try_get"} -> to(Rd(d))
              [] e.op = "lock" -> to([d EXCEPT !.flag = TRUE])
              [] e.op = "unlock" -> to([d EXCEPT !.flag = FALSE])
              [] OTHER -> st
\* what a call returns, and whether it reports an error
Res(st, e) ==
    LET d == st.d[e.i]
    IN CASE e.op = "set" -> [r |-> <<>>, err |-> ~Free(d)]
         [] e.op = "try_set" -> [r |-> <<IF Free(d) THEN 1 ELSE 0>>, err |-> FALSE]
         [] e.op = "get" -> [r |-> IF Readable(d) THEN <<d.v>> ELSE e.r, err |-> ~Readable(d)]
         [] e.op = "try_get" -> [r |-> IF Readable(d) THEN <<1, d.v>> ELSE <<0>>, err |-> FALSE]
         [] e.op = "is_locked" -> [r |-> <<IF d.flag THEN 1 ELSE 0>>, err |-> FALSE]
         [] e.op \in {"copy", "clone", "pack", "unpack"} -> [r |-> <<>>, err |-> TRUE]
         [] OTHER -> [r |-> <<>>, err |-> FALSE]
Exp(st, e) == IF e.op \in {"cfg", "crash", "hang"} THEN [none |-> 0] ELSE Res(st, e)
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op = "cfg" -> ""
      [] OTHER -> LET x == Res(st, e) IN IF e.r # x.r THEN e.op ELSE IF e.err # x.err THEN e.op \o "-report" ELSE ""
=============================================================================
