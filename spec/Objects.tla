------------------------------ MODULE Objects ------------------------------
(* Objects with registered fields: copy, clone and compare.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* cfg.classes[c] = [base: 0 or a class, fields: seq of [f: name, k: "int"/"str"/"map"/"obj", copy, cmp, ref: BOOLEAN, bits: 0 or the
\*                   bits that are compared, d: initial value]]
\* a heap is a sequence of [c: class, v: values by field name]; an "obj" value is an index into the heap or 0
Init0(cfg) == [cl |-> cfg.classes, heap |-> <<>>]
RECURSIVE Fields(_, _)
Fields(cl, c) == IF c = 0 THEN <<>> ELSE Fields(cl, cl[c].base) \o cl[c].fields
RECURSIVE Anc(_, _)
Anc(cl, c) == IF c = 0 THEN {} ELSE {c} \cup Anc(cl, cl[c].base)
\* the fields of class c an object of class d has too
RECURSIVE Common(_, _, _)
Common(cl, c, d) == IF c = 0 THEN <<>> ELSE Common(cl, cl[c].base, d) \o (IF c \in Anc(cl, d) THEN cl[c].fields ELSE <<>>)
New(cl, c) == [c |-> c, v |-> LET fs == Fields(cl, c) IN [n \in {fs[i].f : i \in DOMAIN fs} |-> fs[CHOOSE i \in DOMAIN fs : fs[i].f = n].d]]
\* x = [h: heap, memo: what was copied to what];  the fields fs of b are copied to a
RECURSIVE CopyF(_, _, _, _, _), Copy(_, _, _, _)
CopyF(cl, x, a, b, fs) ==
    IF fs = <<>> THEN x
    ELSE LET f == Head(fs) s == x.h[b].v[f.f]
             put(y, v) == [y EXCEPT !.h[a].v[f.f] = v]
             y == IF ~f.copy THEN x
                  ELSE IF f.k # "obj" \/ s = 0 \/ f.ref THEN put(x, s)
                  ELSE IF s \in DOMAIN x.memo THEN put(x, x.memo[s])
                  ELSE LET n == Len(x.h) + 1 IN put(Copy(cl, [x EXCEPT !.h = Append(@, New(cl, x.h[s].c))], n, s), n)
         IN CopyF(cl, y, a, b, Tail(fs))
Copy(cl, x, a, b) == IF b \in DOMAIN x.memo THEN x ELSE CopyF(cl, [x EXCEPT !.memo = (b :> a) @@ @], a, b, Common(cl, x.h[a].c, x.h[b].c))
Copied(st, a, b) == [st EXCEPT !.heap = Copy(st.cl, [h |-> st.heap, memo |-> [q \in {} |-> 0]], a, b).h]
Pow(n) == 2 ^ (IF n > 30 THEN 30 ELSE n)
Low(v, n) == IF n = 0 \/ n > 30 THEN v ELSE v % Pow(n)
\* the number of differences; x = [n, seen: objects on the right and what they were compared with]
RECURSIVE CmpF(_, _, _, _, _, _), Cmp(_, _, _, _, _, _)
CmpF(cl, h, x, a, b, fs) ==
    IF fs = <<>> THEN x
    ELSE LET f == Head(fs) l == h[a].v[f.f] r == h[b].v[f.f]
             more == [x EXCEPT !.n = @ + 1]
             y == IF ~f.cmp THEN x
                  ELSE IF f.k # "obj" THEN (IF (IF f.bits = 0 THEN l = r ELSE Low(l, f.bits) = Low(r, f.bits)) THEN x ELSE more)
                  ELSE IF l = r THEN x ELSE IF l = 0 \/ r = 0 THEN more
                  ELSE Cmp(cl, h, x, l, r, TRUE)
         IN CmpF(cl, h, y, a, b, Tail(fs))
Cmp(cl, h, x, a, b, ct) ==
    IF b \in DOMAIN x.seen THEN (IF x.seen[b] = a THEN x ELSE [x EXCEPT !.n = @ + 1])
    ELSE CmpF(cl, h, [n |-> IF x.ct /\ h[a].c # h[b].c THEN x.n + 1 ELSE x.n, ct |-> x.ct, seen |-> (b :> a) @@ x.seen], a, b, Common(cl, h[a].c, h[b].c))
Diffs(st, e) == IF e.b = 0 THEN 1 ELSE Cmp(st.cl, st.heap, [n |-> 0, ct |-> e.ct, seen |-> [q \in {} |-> 0]], e.a, e.b, TRUE).n
Step(st, e) ==
    CASE e.op = "new" -> [st EXCEPT !.heap = Append(@, New(st.cl, e.c))]
      [] e.op = "set" -> [st EXCEPT !.heap[e.a].v[e.f] = e.v]
      [] e.op = "copy" -> IF e.b = 0 THEN st ELSE Copied(st, e.a, e.b)
      [] e.op = "clone" -> LET n == Len(st.heap) + 1 IN Copied([st EXCEPT !.heap = Append(@, New(st.cl, st.heap[e.a].c))], n, e.a)
      [] OTHER -> st
Bad(st, e) ==
    IF e.op \in {"crash", "hang"} THEN e.op
    ELSE IF e.op = "compare" /\ e.res # (Diffs(st, e) = 0) THEN "compare"
    ELSE IF e.op = "compare" /\ (LET d == Diffs(st, e) IN IF d < e.max THEN e.n # d ELSE e.n < e.max) THEN "compare-count"
    ELSE IF e.op = "compare" /\ e.msgs # (IF e.n < e.max THEN e.n ELSE e.max) THEN "compare-messages"
    ELSE IF e.op = "cfg" THEN ""
    ELSE IF e.op = "clone" /\ e.r # Len(st.heap) + 1 THEN "clone-is-new"
    ELSE IF e.op = "clone" /\ e.name # e.of THEN "clone-name"
    ELSE IF e.heap # Step(st, e).heap THEN "contents-after-" \o e.op
    ELSE ""
Exp(st, e) == IF e.op \in {"crash", "hang"} THEN [none |-> 0] ELSE IF e.op = "compare" THEN [diffs |-> Diffs(st, e)] ELSE [heap |-> Step(st, e).heap]
=============================================================================
