------------------------------ MODULE MC_HdlPath ------------------------------
(* A block with a sub-block, a register of two bits (the lower one can only be *)
(* read) in the sub-block and a memory in the top block; paths are added and   *)
(* roots set step by step, between accesses.                                   *)
EXTENDS HdlPath, Json
CONSTANT Depth
VARIABLES st, h, last
View == <<st, last, Len(h)>>
Cfg == [blocks |-> <<[par |-> 0, path |-> "top"], [par |-> 1, path |-> "u"]>>,
        things |-> <<[kind |-> "reg", block |-> 2, w |-> 2, acc |-> 1, path |-> ""],
                     [kind |-> "mem", block |-> 1, w |-> 2, acc |-> 0, path |-> "m"]>>]
Kinds == {"RTL", "GATES"}
Init == st = Init0(Cfg) /\ h = <<>> /\ last = [op |-> "none"]
Usable(x, k) == LET f == Full(st, x, k, ".") IN f.err = 0 /\ f.r # <<>> /\ \A i \in DOMAIN f.r : \A j \in DOMAIN f.r[i] : f.r[i][j].p # ""
Evs ==
  [op : {"addp"}, b : {1, 2}, p : {"v" \o ToString(Len(h)), ""}, k : Kinds]
  \cup [op : {"root"}, b : {1, 2}, p : {"tb"}, k : {"RTL"}]
  \cup [op : {"defk"}, b : {1, 2}, k : {"GATES"}] \cup [op : {"defk"}, b : {2}, k : {""}]
  \cup [op : {"slice"}, x : {1}, p : {"s" \o ToString(Len(h))}, off : {-1}, size : {-1}, first : BOOLEAN, k : Kinds]
  \cup [op : {"concat"}, x : {1}, k : {"RTL"},
        s : {<<[p |-> "hi" \o ToString(Len(h)), off |-> 1, size |-> 1], [p |-> "lo" \o ToString(Len(h)), off |-> 0, size |-> 1]>>}]
Accs == {a \in [op : {"acc"}, x : {1}, how : {"write"}, k : {""}, i : {0}, v : {1, 2}]
         \cup [op : {"acc"}, x : {1, 2}, how : {"read"}, k : {""}, i : {0}, v : {0}]
         \cup [op : {"acc"}, x : {2}, how : {"poke"}, k : {"", "GATES"}, i : {0, 1}, v : {3}] : Usable(a.x, a.k)}
\* the design changes one signal behind the register or the memory
Sigs == UNION {LET f == Full(st, x, "", ".").r IN
               {[op |-> "sig", x |-> x, k |-> "", i |-> i - 1, n |-> 0, at |-> 0, v |-> 1,
                 p |-> f[i][1].p \o Idx(st, x, 0)] : i \in DOMAIN f} : x \in {y \in {1, 2} : Usable(y, "")}}
Next == /\ Len(h) < Depth
        /\ \E e \in Evs \cup Accs \cup Sigs :
            /\ (e.op = "slice" /\ ~e.first => e.k \notin DOMAIN st.tp[e.x])    \* (no overlapping parts)
            /\ st' = Step(st, e) /\ h' = Append(h, e)
            /\ last' = IF e.op = "acc" THEN [op |-> "acc", e |-> e, a |-> After(st, e), sig |-> st.sig, mir |-> st.mir[e.x]] ELSE [op |-> e.op]
Emit == Len(h) = Depth => PrintT("@@GEN " \o ToJson(h))
\* the full paths of a thing are its own paths under each of those of its block
Product == \A x \in {1, 2}, k \in Kinds : LET f == Full(st, x, k, ".")
                                              u == FullB(st, st.th[x].block, k, ".") IN
             (f.err = 0 /\ k \in DOMAIN st.tp[x]) => Len(f.r) = Len(u.r) * Len(st.tp[x][k])
\* a root hides everything above it
Rooted == \A k \in Kinds : k \in DOMAIN st.root[2] => FullB(st, 2, k, ".") = [r |-> <<st.root[2][k]>>, err |-> 0]
\* a kind missing in a block on the way up is reported once, at the first block lacking it below a root
Missing == \A k \in Kinds : (k \notin DOMAIN st.root[2]) =>
             ((FullB(st, 2, k, ".").err = 1) <=> (k \notin DOMAIN st.bp[2] \/ (k \notin DOMAIN st.root[1] /\ k \notin DOMAIN st.bp[1])))
\* the default kind is inherited and never empty
Default == \A b \in {1, 2} : Def(st, b) # ""
\* a written register reads back, through every path: bits that can only be read keep their value
ReadBack == last.op = "acc" /\ last.e.how = "write" /\ last.a.ok =>
              LET f == Full(st, 1, "", ".").r
                  old == [i \in DOMAIN f |-> Read1(last.sig, f[i], "") % 4] IN
              \A i \in DOMAIN f : Vals(st, 1, f, "")[i] = (old[1] % 2) + 2 * (last.e.v \div 2)
\* copies that differ make accesses fail without touching the design or the mirror
Differ == last.op = "acc" /\ ~last.a.ok => st.sig = last.sig /\ st.mir[last.e.x] = last.mir
\* reading does not change the design
Pure == last.op = "acc" /\ last.e.how \in {"read", "peek"} => st.sig = last.sig
\* an element of a memory is independent of the others
Elements == last.op = "acc" /\ last.e.x = 2 /\ last.e.how = "poke" =>
              LET f == Full(st, 2, last.e.k, ".").r IN
              \A i \in DOMAIN f : LET o == f[i][1].p \o "[" \o ToString(1 - last.e.i) \o "]" IN Get(st.sig, o, 0) = Get(last.sig, o, 0)
Spec == Init /\ [][Next]_<<st, h, last>>
===============================================================================
