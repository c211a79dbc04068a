------------------------------ MODULE Hierarchy -------------------------------
(* The tree of components: names, lookup, search and iteration.             *)
(* Names are sequences of characters; component 0 is the root.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Glob
\* st.c[i]: [n: name, p: parent]
Init0(cfg) == [c |-> <<>>, built |-> FALSE]
Comps(st) == DOMAIN st.c
Range(s) == {s[i] : i \in DOMAIN s}
Kids(st, p) == SelectSeq([i \in Comps(st) |-> i], LAMBDA i : st.c[i].p = p)      \* in the order of creation
Child(st, p, n) == LET S == {i \in Comps(st) : st.c[i].p = p /\ st.c[i].n = n} IN IF S = {} THEN -1 ELSE CHOOSE i \in S : TRUE
RECURSIVE Full(_, _), Depth(_, _), Walk(_, _, _), Under(_, _)
Full(st, i) == IF i = 0 THEN <<>> ELSE IF st.c[i].p = 0 THEN st.c[i].n ELSE Full(st, st.c[i].p) \o <<".">> \o st.c[i].n
Depth(st, i) == IF i = 0 THEN 0 ELSE 1 + Depth(st, st.c[i].p)
Walk(st, i, path) == IF path = <<>> THEN i ELSE LET k == Child(st, i, Head(path)) IN IF k = -1 THEN -1 ELSE Walk(st, k, Tail(path))
Under(st, i) == {i} \cup UNION {Under(st, k) : k \in Range(Kids(st, i))}
Found(st, e) == {i \in Under(st, e.c) \ {0} : MatchAll(e.pat, Full(st, i))}
Once(s) == Cardinality(Range(s)) = Len(s)
New(st, e) == [st EXCEPT !.c = Append(@, [n |-> e.n, p |-> e.p])]
Step(st, e) == CASE e.op = "new" /\ ~st.built /\ Child(st, e.p, e.n) = -1 -> New(st, e)
                 [] e.op = "built" -> [st EXCEPT !.built = TRUE]
                 [] OTHER -> st
\* children come before their parents
BottomUp(st, s) == \A i, j \in DOMAIN s : i < j => s[j] \notin Under(st, s[i])
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op \in {"cfg", "built"} -> ""
      [] e.op = "new" ->
            LET n == Step(st, e) i == Len(n.c) IN
            IF Len(n.c) = Len(st.c)
            THEN CASE e.fat = 0 -> (IF st.built THEN "late-component-accepted" ELSE "duplicate-accepted")
                   [] ~st.built /\ e.kid -> "duplicate-in-tree"
                   [] OTHER -> ""
            ELSE CASE e.fat # 0 -> "rejected"
                   [] e.full # Full(n, i) -> "full-name"
                   [] e.depth # Depth(n, i) -> "depth"
                   [] e.par # e.p -> "parent"
                   [] OTHER -> ""
      [] e.fat # 0 -> "fatal"
      [] e.op = "name" -> CASE e.full # Full(st, e.c) -> "full-name"
                            [] e.depth # Depth(st, e.c) -> "depth"
                            [] e.err # 1 -> "renaming-not-rejected"
                            [] OTHER -> ""
      [] e.op = "lookup" -> LET r == Walk(st, IF e.abs THEN 0 ELSE e.c, e.path) IN
                            CASE e.r # r -> "lookup" [] e.warn # (r = -1) -> "lookup-report" [] OTHER -> ""
      [] e.op = "kids" -> CASE e.all # Kids(st, e.c) -> "children"
                            [] e.iter # Kids(st, e.c) -> "iteration"
                            [] e.n # Len(Kids(st, e.c)) -> "number-of-children"
                            [] OTHER -> ""
      [] e.op = "has" -> LET k == Child(st, e.c, e.n) IN
                         CASE e.h # (k # -1) -> "has_child" [] e.r # k -> "get_child" [] OTHER -> ""
      [] e.op = "all" -> CASE Range(e.r) # Found(st, e) -> "find_all" [] ~Once(e.r) -> "find_all-twice" [] OTHER -> ""
      [] e.op = "find" -> LET F == Found(st, e) IN
                          CASE F = {} /\ e.r # -1 -> "found-nothing"
                            [] F # {} /\ e.r \notin F -> "find"
                            [] e.warn # (Cardinality(F) # 1) -> "find-report"
                            [] OTHER -> ""
      [] e.op = "visit" -> CASE Range(e.r) # Under(st, e.c) \ {0} \/ ~Once(e.r) -> "visits"
                             [] ~BottomUp(st, e.r) -> "visit-order"
                             [] OTHER -> ""
      [] e.op = "topo" -> IF Range(e.r) # {i \in Under(st, e.c) : i # 0 /\ i # e.test} \/ ~Once(e.r) THEN "topology" ELSE ""
      [] e.op = "tops" -> IF Range(e.r) # Range(Kids(st, 0)) \/ ~Once(e.r) THEN "top-levels" ELSE ""
      [] OTHER -> ""
Exp(st, e) == IF e.op \in {"lookup", "find", "all"} THEN [st |-> st, full |-> [i \in Comps(st) |-> Full(st, i)]] ELSE st
=============================================================================
