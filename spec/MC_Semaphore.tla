---------------------------- MODULE MC_Semaphore ----------------------------
EXTENDS Semaphore, Json
CONSTANTS Procs, MaxKeys, MaxOps, MaxN
VARIABLES st, h, held, total
View == <<st, held, total>>
Init == /\ \E n \in 0 .. MaxN : st = Init0([n |-> n]) /\ total = n
        /\ h = <<[do |-> "init", op |-> "init", n |-> st.n]>> /\ held = [p \in Procs |-> 0]
Ns == 1 .. MaxKeys
Busy == Ids(st.q) \cup Due(st)
Do(e) == Len(h) <= MaxOps /\ st' = Step(st, e @@ [t |-> 0]) /\ h' = Append(h, [do |-> e.op] @@ e)
\* granted processes are counted as holding their keys when they go on
Next == \/ \E w \in Procs \ Busy, n \in Ns : held[w] = 0 /\ Do([op |-> "req", w |-> w, n |-> n]) /\ UNCHANGED <<held, total>>
        \/ \E w \in Due(st) : Do([op |-> "got", w |-> w]) /\ held' = [held EXCEPT ![w] = Keys(st, w)] /\ UNCHANGED total
        \/ \E w \in Procs : held[w] > 0 /\ Do([op |-> "put", w |-> w, n |-> held[w]]) /\ held' = [held EXCEPT ![w] = 0] /\ UNCHANGED total
        \/ total < MaxN + 1 /\ Do([op |-> "put", w |-> 0, n |-> 1]) /\ total' = total + 1 /\ UNCHANGED held
        \/ \E n \in Ns : Do([op |-> "try", w |-> 0, n |-> n]) /\ total' = (IF n <= st.n THEN total - n ELSE total) /\ UNCHANGED held
Emit == PrintT("@@GEN " \o ToJson(h'))
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
\* no key is lost and none appears
Conserved == st.n + Sum(Due(st), [w \in Due(st) |-> Keys(st, w)]) + Sum(Procs, held) = total
NonNegative == st.n >= 0
\* the first request that waits could not be granted
NoIdleGrant == st.q = <<>> \/ Head(st.q).n > st.n
=============================================================================
