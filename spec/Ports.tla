------------------------------- MODULE Ports -------------------------------
(* Ports, exports and implementations: legal connections, the binding at    *)
(* the end of elaboration, and where calls through a port arrive.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* cfg.comps[c]: number of the parent component (0: the root);
\* cfg.nodes[n] = [kind: port/export/imp, comp, if: interface, ana, min, max (-1 unbounded), sfx: hook suffix]
Caps(i) == CASE i = "blocking_put" -> {"bput"} [] i = "nonblocking_put" -> {"nput"} [] i = "put" -> {"bput", "nput"}
             [] i = "blocking_get" -> {"bget"} [] i = "nonblocking_get" -> {"nget"} [] i = "get" -> {"bget", "nget"}
             [] i = "blocking_peek" -> {"bpeek"} [] i = "nonblocking_peek" -> {"npeek"} [] i = "peek" -> {"bpeek", "npeek"}
             [] i = "blocking_get_peek" -> {"bget", "bpeek"} [] i = "nonblocking_get_peek" -> {"nget", "npeek"}
             [] i = "get_peek" -> {"bget", "nget", "bpeek", "npeek"}
             [] i = "blocking_transport" -> {"btr"} [] i = "nonblocking_transport" -> {"ntr"} [] i = "transport" -> {"btr", "ntr"}
             [] i = "blocking_master" -> {"bput", "bget", "bpeek", "mst"} [] i = "nonblocking_master" -> {"nput", "nget", "npeek", "mst"}
             [] i = "master" -> {"bput", "nput", "bget", "nget", "bpeek", "npeek", "mst"}
             [] i = "blocking_slave" -> {"bput", "bget", "bpeek", "slv"} [] i = "nonblocking_slave" -> {"nput", "nget", "npeek", "slv"}
             [] i = "slave" -> {"bput", "nput", "bget", "nget", "bpeek", "npeek", "slv"}
             [] i = "analysis" -> {"ana"}
Meths(c) == CASE c = "bput" -> {"put"} [] c = "nput" -> {"try_put", "can_put"} [] c = "bget" -> {"get"} [] c = "nget" -> {"try_get", "can_get"}
              [] c = "bpeek" -> {"peek"} [] c = "npeek" -> {"try_peek", "can_peek"} [] c = "btr" -> {"transport"} [] c = "ntr" -> {"nb_transport"}
              [] c = "ana" -> {"write"} [] OTHER -> {}
Methods(i) == UNION {Meths(c) : c \in Caps(i)}
Init0(cfg) == [comps |-> cfg.comps, nodes |-> cfg.nodes, by |-> [n \in DOMAIN cfg.nodes |-> {}], done |-> FALSE,
               lst |-> [n \in DOMAIN cfg.nodes |-> <<>>], sel |-> [n \in DOMAIN cfg.nodes |-> 1]]
Node(st, n) == st.nodes[n]
Up(st, c) == IF c = 0 THEN -1 ELSE st.comps[c]
Illegal(st, a, b) == \/ b = 0 \/ a = b
                     \/ ~(Caps(Node(st, a).if) \subseteq Caps(Node(st, b).if))
                     \/ Node(st, a).kind = "imp"
                     \/ Node(st, a).kind = "export" /\ Node(st, b).kind = "port"
\* a port connects to a port of the parent or to an export or implementation beside it, an export to one of a child
Odd(st, a, b) == LET x == Node(st, a) y == Node(st, b) IN
    ~Illegal(st, a, b) /\ ~(x.kind = "port" /\ x.if = "analysis")
    /\ CASE x.kind = "port" /\ y.kind = "port" -> Up(st, x.comp) # y.comp
         [] x.kind = "port" -> Up(st, x.comp) # Up(st, y.comp)
         [] OTHER -> x.comp # Up(st, y.comp)
\* the implementations a node reaches
RECURSIVE Reach(_, _)
Reach(st, n) == IF Node(st, n).kind = "imp" THEN {n} ELSE UNION {Reach(st, m) : m \in st.by[n]}
Out(st, n) == LET k == Cardinality(Reach(st, n)) x == Node(st, n) IN k < x.min \/ (x.max # -1 /\ k > x.max)
\* requests go through the request side of a master, responses through the other; a slave's sides are exchanged
Obj(x, m) == LET put == m \in {"put", "try_put", "can_put"} IN
    IF "mst" \in Caps(x.if) THEN (IF put THEN "req" ELSE "rsp")
    ELSE IF "slv" \in Caps(x.if) THEN (IF put THEN "rsp" ELSE "req") ELSE "imp"
Arrive(st, i, m, v) == [c |-> Node(st, i).comp, sfx |-> Node(st, i).sfx, o |-> Obj(Node(st, i), m), m |-> m, v |-> v]
Rng(s) == {s[k] : k \in DOMAIN s}
Bag(s) == [x \in {s[k] : k \in DOMAIN s} |-> Cardinality({k \in DOMAIN s : s[k] = x})]
CallLog(st, e) == IF e.m = "write" THEN [k \in DOMAIN st.lst[e.n] |-> Arrive(st, st.lst[e.n][k], "write", e.v)]
                  ELSE <<Arrive(st, st.lst[e.n][st.sel[e.n]], e.m, e.v)>>
Step(st, e) ==
    CASE e.op = "connect" /\ ~Illegal(st, e.a, e.b) -> [st EXCEPT !.by[e.a] = @ \cup {e.b}]
      [] e.op = "elab" -> [st EXCEPT !.done = TRUE, !.lst = e.lst]
      [] e.op = "set_if" -> IF e.i \in 0 .. Len(st.lst[e.n]) - 1 THEN [st EXCEPT !.sel[e.n] = e.i + 1] ELSE st
      [] OTHER -> st
Bad(st, e) ==
    IF e.op \in {"crash", "hang"} THEN e.op
    ELSE CASE e.op = "connect" -> (IF e.err # Illegal(st, e.a, e.b) THEN "connect-error"
                                   ELSE IF e.warn # Odd(st, e.a, e.b) THEN "connect-warning" ELSE "")
      [] e.op = "elab" -> (IF \E n \in DOMAIN st.nodes : {e.lst[n][k] : k \in DOMAIN e.lst[n]} # Reach(st, n) THEN "binding"
                           ELSE IF \E n \in DOMAIN st.nodes : Len(e.lst[n]) # Cardinality(Reach(st, n)) \/ e.size[n] # Len(e.lst[n]) THEN "bound-once"
                           ELSE IF \E n \in DOMAIN st.nodes : e.errs[n] # (IF Out(st, n) THEN 1 ELSE 0) THEN "bounds-report"
                           ELSE IF \E n \in DOMAIN st.nodes : Rng(e.by[n]) # st.by[n] \/ Rng(e.to[n]) # {m \in DOMAIN st.nodes : n \in st.by[m]} THEN "connection-lists" ELSE "")
      [] e.op = "call" -> (IF Bag(e.log) # Bag(CallLog(st, e)) THEN (IF e.m = "write" THEN "broadcast" ELSE "call-arrives")
                           ELSE IF e.ret # (IF e.m = "write" THEN 0 ELSE e.v + 1) THEN "call-result" ELSE "")
      [] OTHER -> ""
Exp(st, e) == CASE e.op = "connect" -> [err |-> Illegal(st, e.a, e.b), warn |-> Odd(st, e.a, e.b)]
                [] e.op = "elab" -> [reach |-> [n \in DOMAIN st.nodes |-> Reach(st, n)], out |-> {n \in DOMAIN st.nodes : Out(st, n)}, by |-> st.by]
                [] e.op = "call" -> [log |-> CallLog(st, e)]
                [] OTHER -> [none |-> 0]
=============================================================================
