-------------------------------- MODULE Globs --------------------------------
(* Matching of names with patterns, wherever the library does it: scopes of *)
(* resources, instance paths of the factory, uvm_is_match.                  *)
EXTENDS Integers, Sequences, TLC, Glob
\* e.p: the pattern, e.s: the strings, e.r: the answers
Init0(cfg) == [n |-> 0]
Step(st, e) == [n |-> st.n + 1]
Kind(p) == CASE IsRe(p) -> "regular-expression" [] p = <<>> -> "empty" [] OTHER -> "glob"
\* a scope is judged in the strict way (the known finding) only when the event asks for it
Should(e, s) == IF e.op = "scope" THEN Match(e.p, s) ELSE MatchAll(e.p, s)
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op = "cfg" -> ""
      [] Len(e.r) # Len(e.s) -> "answers"
      [] \E i \in DOMAIN e.s : e.r[i] # Should(e, e.s[i]) -> Kind(e.p) \o "-" \o e.op
      [] OTHER -> ""
Exp(st, e) == IF "s" \in DOMAIN e THEN [r |-> [i \in DOMAIN e.s |-> Should(e, e.s[i])]] ELSE [r |-> <<>>]
=============================================================================
