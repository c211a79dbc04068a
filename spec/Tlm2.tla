-------------------------------- MODULE Tlm2 --------------------------------
(* Generic transports: sockets, ports, exports and implementations of the
   blocking and nonblocking interfaces, time annotations, and the attributes
   of a generic payload.

   cfg.nodes : sequence of records [n, k] : the name and kind of every socket.
   A socket kind is  "b" | "n"  (blocking, nonblocking)  followed by
     i initiator, I passthrough initiator, T passthrough target, t target;
   plain kinds are  P port, E export, M implementation  after  "b" | "f" | "w"
   (blocking, nonblocking forward, nonblocking backward).
   cfg.sol : the nodes whose implementation is given explicitly               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Fam(k) == SubSeq(k, 1, 1)
Role(k) == SubSeq(k, 2, 2)
\* what may be connected to what
Allowed(a, b) ==
    /\ Fam(a) = Fam(b)
    /\ CASE Role(a) \in {"i", "I"} -> Role(b) \in {"I", "T", "t"}
         [] Role(a) = "T" -> Role(b) \in {"T", "t"}
         [] Role(a) = "P" -> Role(b) \in {"P", "E", "M"}
         [] Role(a) = "E" -> Role(b) \in {"E", "M"}
         [] OTHER -> FALSE
None == [x \in {} |-> 0]
Init0(cfg) ==
    [kind |-> [x \in {cfg.nodes[i].n : i \in DOMAIN cfg.nodes} |->
                 cfg.nodes[CHOOSE i \in DOMAIN cfg.nodes : cfg.nodes[i].n = x].k],
     fwd |-> None,          \* the provider of a node
     open |-> None,         \* calls under way: id -> [at, dur, d, seen]
     tm |-> None,           \* time variables: id -> [v, res]   (femtoseconds)
     pl |-> None]           \* payloads: id -> [cmd, addr]
\* ---- routes -----------------------------------------------------------------
Back(st, x) == {y \in DOMAIN st.fwd : st.fwd[y] = x}
RECURSIVE End(_, _)        \* the end of the forward route: "" when it is open
End(st, x) == IF Role(st.kind[x]) \in {"t", "M"} THEN x
              ELSE IF x \in DOMAIN st.fwd THEN End(st, st.fwd[x]) ELSE ""
RECURSIVE Start(_, _)      \* the initiator from which the backward route arrives: "" when it is open
Start(st, x) == IF Role(st.kind[x]) = "i" THEN x
                ELSE IF Back(st, x) = {} THEN "" ELSE Start(st, CHOOSE y \in Back(st, x) : TRUE)
Sockets(st) == {x \in DOMAIN st.kind : Fam(st.kind[x]) = "n"}
\* every port and export has an implementation
Complete(st) == /\ \A x \in DOMAIN st.kind : End(st, x) # ""
                /\ \A x \in Sockets(st) : Start(st, x) # ""
Dest(st, e) == IF e.dir = "bw" /\ Fam(st.kind[e.s]) = "n" THEN Start(st, e.s) ELSE End(st, e.s)
\* ---- time -------------------------------------------------------------------
\* amounts: t/scaled units of u femtoseconds
Amount(e) == (e.x * e.u) \div e.sc
Later(v, e) == CASE e.op = "incr" -> IF e.x < 0 THEN v ELSE v + Amount(e)
                 [] e.op = "decr" -> IF e.x < 0 THEN v ELSE IF Amount(e) > v THEN 0 ELSE v - Amount(e)
                 [] e.op = "setabs" -> e.x * e.u
                 [] e.op = "treset" -> 0
TimeErr(v, e) == CASE e.op = "incr" -> e.x < 0
                   [] e.op = "decr" -> e.x < 0 \/ Amount(e) > v
                   [] OTHER -> FALSE
\* ---- steps ------------------------------------------------------------------
\* results of getabs and getreal are in thousandths
Exp(st, e) ==
    CASE e.op = "connect" -> [err |-> IF Allowed(st.kind[e.a], st.kind[e.b]) THEN 0 ELSE 1]
      [] e.op = "elab" -> [err |-> IF Complete(st) THEN 0 ELSE 1]
      [] e.op = "nb" -> IF e.null = 1 THEN [r |-> "COMPLETED", recv |-> <<>>, err |-> 1]
                        ELSE [r |-> e.ret, recv |-> <<[c |-> Dest(st, e), m |-> e.dir, o |-> <<1, 1, 1>>]>>, err |-> 0]
      [] e.op = "bstart" -> [err |-> IF e.null = 1 THEN 1 ELSE 0]
      [] e.op = "brecv" -> [c |-> IF e.id \in DOMAIN st.open THEN st.open[e.id].to ELSE "nobody", o |-> <<1, 1>>]
      [] e.op = "bend" -> IF e.id \in DOMAIN st.open
                          THEN [at |-> st.open[e.id].at + st.open[e.id].dur, d |-> st.open[e.id].d + st.open[e.id].dur * 1000000]
                          ELSE [at |-> -1, d |-> -1]
      [] e.op \in {"incr", "decr"} -> [err |-> IF TimeErr(st.tm[e.id].v, e) THEN 1 ELSE 0]
      [] e.op = "getabs" -> [r |-> st.tm[e.id].v \div (e.u \div 1000)]
      [] e.op = "getreal" -> [r |-> (st.tm[e.id].v \div (e.u \div 1000)) * e.sc]
      [] e.op = "pget" -> [cmd |-> st.pl[e.id].cmd, rd |-> IF st.pl[e.id].cmd = "READ" THEN 1 ELSE 0,
                           wr |-> IF st.pl[e.id].cmd = "WRITE" THEN 1 ELSE 0, addr |-> st.pl[e.id].addr]
      [] OTHER -> [ok |-> 1]
Bit(n) == IF n > 0 THEN 1 ELSE 0
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op = "connect" -> IF Bit(e.err) = Exp(st, e).err THEN "" ELSE "connect"
      [] e.op = "elab" -> IF Bit(e.err) = Exp(st, e).err THEN "" ELSE "unconnected"
      [] e.op = "nb" -> IF e.recv # Exp(st, e).recv THEN "route-" \o e.dir ELSE IF e.r # Exp(st, e).r THEN "sync"
                        ELSE IF Bit(e.err) # Exp(st, e).err THEN "null-delay" ELSE ""
      [] e.op = "bstart" -> IF Bit(e.err) = Exp(st, e).err THEN "" ELSE "null-delay"
      [] e.op = "brecv" -> IF e.id \in DOMAIN st.open /\ st.open[e.id].seen = 0 /\ [c |-> e.c, o |-> e.o] = Exp(st, e) THEN ""
                           ELSE "route-b"
      [] e.op = "bend" -> IF e.id \in DOMAIN st.open /\ st.open[e.id].seen = 1 /\ e.at = Exp(st, e).at THEN
                              IF e.d = Exp(st, e).d THEN "" ELSE "annotation"
                          ELSE "transport-end"
      [] e.op \in {"incr", "decr"} -> IF Bit(e.err) = Exp(st, e).err THEN "" ELSE "time-error"
      [] e.op \in {"getabs", "getreal"} -> IF e.r = Exp(st, e).r THEN "" ELSE "time-value"
      [] e.op = "pget" -> IF [cmd |-> e.cmd, rd |-> e.rd, wr |-> e.wr, addr |-> e.addr] = Exp(st, e) THEN "" ELSE "payload"
      [] e.op = "end" -> IF DOMAIN st.open = {} THEN "" ELSE "transport-lost"
      [] OTHER -> ""
Step(st, e) ==
    CASE e.op = "connect" -> IF Allowed(st.kind[e.a], st.kind[e.b]) THEN [st EXCEPT !.fwd = (e.a :> e.b) @@ @] ELSE st
      [] e.op = "bstart" -> IF e.null = 1 THEN st
                            ELSE [st EXCEPT !.open = (e.id :> [at |-> e.at, dur |-> e.dur, d |-> e.d, to |-> End(st, e.s), seen |-> 0]) @@ @]
      [] e.op = "brecv" -> IF e.id \in DOMAIN st.open THEN [st EXCEPT !.open[e.id].seen = 1] ELSE st
      [] e.op = "bend" -> [st EXCEPT !.open = [x \in DOMAIN @ \ {e.id} |-> @[x]]]
      [] e.op = "tnew" -> [st EXCEPT !.tm = (e.id :> [v |-> 0, res |-> e.res]) @@ @]
      [] e.op \in {"incr", "decr", "setabs", "treset"} -> [st EXCEPT !.tm[e.id].v = Later(@, e)]
      [] e.op = "pnew" -> [st EXCEPT !.pl = (e.id :> [cmd |-> "IGNORE", addr |-> 0]) @@ @]
      [] e.op = "pcmd" -> [st EXCEPT !.pl[e.id].cmd = e.v]
      [] e.op = "paddr" -> [st EXCEPT !.pl[e.id].addr = e.v]
      [] OTHER -> st
=============================================================================
