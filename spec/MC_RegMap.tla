----------------------------- MODULE MC_RegMap -----------------------------
(* A child map below a root map, two registers and a memory: every mix of   *)
(* widths, endianness and addressing; then moves.                           *)
EXTENDS RegMap, Json
CONSTANTS Widths, Ends, MaxOps
VARIABLES st, h, cfg
View == <<st, h>>
Reg(n, m, o, b, a) == [kind |-> "reg", name |-> n, map |-> m, off |-> o, nb |-> b, size |-> 1, acc |-> a, un |-> FALSE]
Init == \E w1, w2 \in Widths, e1, e2 \in Ends, ba \in BOOLEAN, n1 \in {1, 8}, acc \in {"RW", "RO"}, o1 \in {16, 32} :
    /\ cfg = [maps |-> <<[par |-> 0, nb |-> w1, en |-> e1, ba |-> ba, base |-> 4096, off |-> 0],
                         [par |-> 1, nb |-> w2, en |-> e2, ba |-> ba, base |-> 0, off |-> 256]>>,
              items |-> <<Reg("ra", 2, 16, n1, acc), Reg("rb", 2, o1, n1, IF acc = "RO" THEN "WO" ELSE "RW"), Reg("rc", 1, 0, 4, "RW"),
                          [kind |-> "mem", name |-> "ma", map |-> 2, off |-> 64, nb |-> 4, size |-> 4, acc |-> "RW", un |-> FALSE]>>]
    /\ st = Step(Init0(cfg), [op |-> "lock"]) /\ h = <<>>
Do(e) == st' = Step(st, e) /\ h' = Append(h, e) /\ UNCHANGED cfg
Next == \/ \E i \in 1 .. 2, o \in {16, 32, 48} : Do([op |-> "move", i |-> i, off |-> o, un |-> FALSE])
        \/ \E i \in 1 .. 2 : Do([op |-> "move", i |-> i, off |-> st.items[i].off, un |-> TRUE])
        \/ Do([op |-> "submap", m |-> 2, off |-> 512])
Bound == Len(h) < MaxOps
Emit == PrintT("@@GEN " \o ToJson([cfg |-> cfg, h |-> [i \in DOMAIN h' |-> [do |-> h'[i].op] @@ h'[i]]]))
\* ---- independent of the table ----
Regs == {i \in DOMAIN st.items : st.items[i].kind = "reg" /\ ~st.items[i].un}
Fifo == \E m \in DOMAIN st.maps : st.maps[m].en > 2
All == TLCEval([i \in Regs |-> TLCEval(Addrs(st, i))])
\* non-overlapping byte ranges never meet on the bus; every byte is covered: accesses times the narrowest width
\* on the way; the accesses of one register are distinct; lookup inverts the placement; no stale entries
Placement ==
    LET A == All
        S == TLCEval([i \in Regs |-> TLCEval(Img(A[i]))])
        apart(i, j) == st.items[i].map = st.items[j].map /\ st.items[i].off + st.items[i].nb * st.items[i].nb <= st.items[j].off
    IN /\ \A i, j \in Regs : i # j /\ apart(i, j) => S[i] \cap S[j] = {}
       /\ \A i \in Regs : Len(A[i]) * Width(st.maps, st.items[i].map) >= st.items[i].nb
       /\ ~Fifo => \A i \in Regs : Cardinality(S[i]) = Len(A[i])
       /\ (\A i, j \in Regs : i # j => S[i] \cap S[j] = {}) /\ h = <<>> =>
              /\ \A i \in Regs : \A a \in DOMAIN st.t : (a \in S[i]) = (Find(st, a, TRUE) = st.items[i].name)
              /\ \A i \in Regs : S[i] \subseteq DOMAIN st.t
       /\ \A a \in DOMAIN st.t : \A rd \in BOOLEAN : \E i \in Regs : Find(st, a, rd) = st.items[i].name /\ a \in S[i]
Sides == \A a \in DOMAIN st.t : st.t[a].rd # st.t[a].wr => st.items[st.t[a].rd].acc = "RO" /\ st.items[st.t[a].wr].acc = "WO"
=============================================================================
