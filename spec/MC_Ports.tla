------------------------------ MODULE MC_Ports ------------------------------
(* Every order of connections on small sets of ports.                       *)
EXTENDS Ports, Json
CONSTANTS Kinds, MaxConn
VARIABLES st, h, cfg
View == <<st, cfg>>
N(k, c, i, mn, mx) == [kind |-> k, comp |-> c, if |-> i, min |-> mn, max |-> mx, sfx |-> ""]
\* test 1 with children 2 and 3, and 4 below 3
Comps == <<0, 1, 1, 3>>
Config(k) == CASE k = "chain" -> [comps |-> Comps, nodes |-> <<N("port", 2, "put", 1, 1), N("export", 3, "put", 1, 1), N("imp", 4, "put", 1, 1), N("imp", 3, "put", 1, 1)>>]
               [] k = "up" -> [comps |-> Comps, nodes |-> <<N("port", 4, "blocking_get", 1, 1), N("port", 3, "get", 1, 2), N("imp", 2, "get_peek", 1, 1), N("imp", 1, "blocking_get", 1, 1)>>]
               [] k = "many" -> [comps |-> Comps, nodes |-> <<N("port", 2, "analysis", 0, -1), N("export", 3, "analysis", 0, -1), N("imp", 4, "analysis", 1, 1), N("imp", 3, "analysis", 1, 1)>>]
               [] k = "bounds" -> [comps |-> Comps, nodes |-> <<N("port", 2, "peek", 0, 1), N("port", 1, "peek", 2, 2), N("imp", 4, "peek", 1, 1), N("imp", 3, "master", 1, 1)>>]
Init == \E k \in Kinds : cfg = Config(k) /\ st = Init0(cfg) /\ h = <<>>
Do(e) == st' = Step(st, e) /\ h' = Append(h, e) /\ UNCHANGED cfg
Ns == DOMAIN cfg.nodes
\* any order of the reached implementations will do
Order(S) == CHOOSE f \in [1 .. Cardinality(S) -> S] : {f[i] : i \in DOMAIN f} = S
Acyclic(a, b) == ~Illegal(st, a, b) => a < b
Next == \/ /\ ~st.done /\ Len(h) < MaxConn
           /\ \E a \in Ns, b \in Ns \cup {0} : Acyclic(a, b) /\ Do([op |-> "connect", a |-> a, b |-> b])
        \/ ~st.done /\ Do([op |-> "elab", lst |-> [n \in Ns |-> Order(Reach(st, n))]])
Emit == st'.done => PrintT("@@GEN " \o ToJson([cfg |-> cfg, h |-> [i \in 1 .. Len(h') - 1 |-> [do |-> h'[i].op] @@ h'[i]]]))
\* independent formulation: a path of connections leads from the node to the implementation
Path(n, i) == \E len \in 0 .. 3 : \E p \in [0 .. len -> Ns] : p[0] = n /\ p[len] = i /\ \A k \in 1 .. len : p[k] \in st.by[p[k - 1]]
Bound == st.done => \A n \in Ns : {st.lst[n][k] : k \in DOMAIN st.lst[n]} = {i \in Ns : cfg.nodes[i].kind = "imp" /\ Path(n, i)}
\* whatever is reached offers every method of the interface
Served == \A n \in Ns : \A i \in Reach(st, n) : Methods(cfg.nodes[n].if) \subseteq Methods(cfg.nodes[i].if)
NeverPortBelowExport == \A a \in Ns : \A b \in st.by[a] : ~(cfg.nodes[a].kind = "export" /\ cfg.nodes[b].kind = "port") /\ cfg.nodes[a].kind # "imp"
=============================================================================
