--------------------------- MODULE MC_PhaseGraph ----------------------------
(* All ways to build a schedule R of MaxOps insertions, one of which may be a *)
(* nested schedule S (holding one phase), at every position.                  *)
EXTENDS PhaseGraph, Json
CONSTANTS MaxOps
VARIABLES st, h, prev
View == <<st, prev, Len(h)>>
P == <<"a", "b", "c", "d", "e", "f">>
Ini == LET s == Step(Step(Init0(<<>>), [op |-> "sched", x |-> "R"]), [op |-> "sched", x |-> "S"]) IN
       Add(s, [x |-> "q", to |-> "S", with |-> "", after |-> "", before |-> ""])
Init == st = Ini /\ h = <<>> /\ prev = Ini
InR == {x \in st.N : x # "R" /\ Reach(st, "R", x)}          \* what is in R so far
Insert(e) == /\ Len(h) < MaxOps
             /\ st' = Add(st, e) /\ prev' = st /\ h' = Append(h, e)
New == IF \E i \in DOMAIN h : h[i].x = "S" THEN {P[Len(h)]} ELSE {P[Len(h) + 1], "S"}
E(x, w, a, b) == [x |-> x, to |-> "R", with |-> w, after |-> a, before |-> b]
Next == \E x \in New :
          \/ Insert(E(x, "", "", ""))
          \/ \E y \in InR : Insert(E(x, y, "", "")) \/ Insert(E(x, "", y, "")) \/ Insert(E(x, "", "", y))
          \/ Insert(E(x, "", "R", ""))
          \/ \E y \in InR \cup {"R"}, z \in InR : Reach(st, EndOf(st, y), z) /\ y # "R" /\ Insert(E(x, "", y, z))
Emit == ~(Len(h') = MaxOps) \/ PrintT("@@GEN " \o ToJson(h'))
Last == h[Len(h)]
Acyclic == \A x \in st.N : x \notin UNION {Close(st, {y}) : y \in Succs(st, x)}
\* every ordering that held still holds, and none appears among the old nodes
Preserved == \A x \in prev.N, y \in prev.N : Reach(prev, x, y) => Reach(st, x, y)
NoneAdded == \A x \in prev.N \cap (InR \cup {"R"}), y \in prev.N \cap InR :
                x # "S" /\ y # "S" /\ x # "q" /\ y # "q" => (Reach(st, x, y) => Reach(prev, x, y))
Placed == h # <<>> => LET e == Last n == EndOf(st, e.x) IN
   /\ e.after # "" => Reach(st, IF e.after = "R" THEN "R" ELSE EndOf(st, e.after), e.x)
   /\ e.before # "" => Reach(st, n, e.before)
   /\ e.with # "" => ~Reach(st, e.x, e.with) /\ ~Reach(st, e.with, e.x)
        /\ \A y \in prev.N : y \notin {"q", "S"} /\ e.with \notin {"q", "S"} =>
              (Reach(st, y, e.x) <=> Reach(st, y, e.with)) /\ (Reach(st, n, y) <=> Reach(st, EndOf(st, e.with), y))
   /\ Reach(st, "R", e.x) /\ Reach(st, n, "R end")
=============================================================================
