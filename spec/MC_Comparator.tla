---------------------------- MODULE MC_Comparator ----------------------------
EXTENDS Comparator, Json
CONSTANTS N, MaxItems, Kinds
VARIABLES st, h, ab, bb, cmp
View == <<st, ab, bb, cmp>>
Init == /\ \E kd \in Kinds : st = Init0([kind |-> kd, k |-> 1, n |-> N])
        /\ h = <<[do |-> "init", op |-> "init", kind |-> st.c.kind]>> /\ ab = <<>> /\ bb = <<>> /\ cmp = <<>>
Do(e) == st' = Step(st, e @@ [t |-> 0]) /\ h' = Append(h, [do |-> e.op] @@ e)
Next == \/ \E v \in 0 .. N - 1 : Len(bb) < MaxItems /\ Do([op |-> "b", i |-> Len(bb), v |-> v]) /\ bb' = Append(bb, v) /\ UNCHANGED <<ab, cmp>>
        \/ \E v \in 0 .. N - 1 : Len(ab) < MaxItems /\ Do([op |-> "a", i |-> Len(ab), v |-> v]) /\ ab' = Append(ab, v) /\ UNCHANGED <<bb, cmp>>
        \/ Ready(st) /\ Do([op |-> "pair"]) /\ cmp' = Append(cmp, [a |-> Head(st.a).i, b |-> Head(st.b).i]) /\ UNCHANGED <<ab, bb>>
        \/ st.m + st.mm > 0 /\ Do([op |-> "flush"]) /\ UNCHANGED <<ab, bb, cmp>>
Emit == PrintT("@@GEN " \o ToJson(h'))
T(v) == IF st.c.kind = "alg" THEN (v + 1) % N ELSE v
Min(x, y) == IF x < y THEN x ELSE y
\* the n-th pair holds the n-th items, whatever the interleaving
InOrder == \A i \in DOMAIN cmp : cmp[i].a = i - 1 /\ cmp[i].b = i - 1
RECURSIVE Mis(_)
Mis(k) == IF k = 0 THEN 0 ELSE Mis(k - 1) + (IF T(bb[k]) = ab[k] THEN 0 ELSE 1)
ErrOk == st.err = Mis(Len(cmp))
NoneLost == Len(cmp) + Min(Len(st.a), Len(st.b)) = Min(Len(ab), Len(bb))
=============================================================================
