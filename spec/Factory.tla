------------------------------ MODULE Factory -------------------------------
(***************************************************************************)
(* Factory overrides.  Types are known by name.                            *)
(*   def n                     a type is registered                        *)
(*   tov o r rep err           type override (rep: replace an existing one)*)
(*   iov o r path              instance override                           *)
(*   create how n path res loop   how: name/type; res: type made or "none" *)
(*   wrapper n ok              find_wrapper_by_name                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Glob
Init0(cfg) == [ch |-> cfg.ch, types |-> {}, tov |-> <<>>, iov |-> <<>>]
Tov(st, t) == {i \in DOMAIN st.tov : st.tov[i].o = t}
IHits(st, t, path) == {i \in DOMAIN st.iov : st.iov[i].o = t /\ MatchAll(st.ch[st.iov[i].path], st.ch[path])}
Min(s) == CHOOSE i \in s : \A j \in s : i <= j
\* the override that applies to type t at a path: "" if none
Applies(st, t, path) ==
  LET h == IF path = "" THEN {} ELSE IHits(st, t, path) IN
  IF h # {} THEN st.iov[Min(h)].r ELSE IF Tov(st, t) # {} THEN st.tov[CHOOSE i \in Tov(st, t) : TRUE].r ELSE ""
RECURSIVE Resolve(_, _, _, _)
Resolve(st, t, path, seen) ==
  IF t \in seen THEN [res |-> t, loop |-> TRUE]
  ELSE LET n == Applies(st, t, path) IN
       IF n = "" \/ n = t THEN [res |-> t, loop |-> FALSE] ELSE Resolve(st, n, path, seen \cup {t})
Made(st, e) == IF e.n \in st.types \/ Applies(st, e.n, e.path) # "" THEN Resolve(st, e.n, e.path, {})
               ELSE [res |-> "none", loop |-> FALSE]
Bad(st, e) ==
  CASE e.op \in {"crash", "hang"} -> e.op
    [] e.op = "create" -> LET m == Made(st, e) IN
         IF e.res # m.res THEN "create." \o e.how
         ELSE IF m.loop /\ ~e.loop THEN "loop.not-reported"
         ELSE IF e.loop /\ ~m.loop /\ ~(e.how = "name" /\ Applies(st, e.n, e.path) = e.n) THEN "loop.reported-without-a-loop" ELSE ""
    [] e.op = "tov" -> IF e.err # (e.r \notin st.types) THEN "override.unknown-type" ELSE ""
    [] e.op = "wrapper" -> IF e.ok # (e.n \in st.types) THEN "find_wrapper_by_name" ELSE ""
    [] OTHER -> ""
Step(st, e) ==
  CASE e.op = "def" -> [st EXCEPT !.types = @ \cup {e.n}]
    [] e.op = "tov" -> IF e.r \notin st.types \/ (e.how = "name" /\ e.o = e.r) THEN st
                       ELSE IF Tov(st, e.o) = {} THEN [st EXCEPT !.tov = Append(@, [o |-> e.o, r |-> e.r])]
                       ELSE IF ~e.rep THEN st
                       ELSE [st EXCEPT !.tov = [i \in DOMAIN @ |-> IF @[i].o = e.o THEN [@[i] EXCEPT !.r = e.r] ELSE @[i]]]
    [] e.op = "iov" -> [st EXCEPT !.iov = Append(@, [o |-> e.o, r |-> e.r, path |-> e.path])]
    [] OTHER -> st
Exp(st, e) == IF e.op = "create" THEN Made(st, e) ELSE ""
=============================================================================
