---------------------------- MODULE MC_Objection ----------------------------
EXTENDS Objection, Json
CONSTANTS Trees, Drains, Counts, MaxTime, MaxOps, MaxTot
VARIABLES st, h
View == st
MCTrees == {<<0, 1, 2>>, <<0, 1, 2, 2>>}
MCDrains == {<<0, 0, 0, 0>>, <<0, 0, 2, 1>>}
Init == \E par \in Trees, pr \in BOOLEAN, dr \in Drains :
          LET n == Len(par) IN
          /\ st = Init0([par |-> par, prop |-> pr, hd |-> [o \in 1 .. n |-> 0], cb |-> FALSE,
                         comp |-> [o \in 1 .. n |-> o # 1], drain |-> [o \in 1 .. n |-> dr[o]]])
          /\ h = <<[do |-> "cfg", par |-> par, prop |-> pr, drain |-> [o \in 1 .. n |-> dr[o]]]>>

Ok(e) == Bad(st, e) = "" /\ st' = Step(st, e)
E(op, o, c) == LET e == [op |-> op, t |-> st.now, o |-> o, c |-> c, fatal |-> Unbalanced(st, o, c) /\ ~st.cleared]
               IN  e @@ [hooks |-> Act(st, e).hk]
Raise(o, c) == Ok(E("raise", o, c)) /\ st.tot[1] + c <= MaxTot /\ h' = Append(h, [do |-> "raise", o |-> o, c |-> c])
Drop(o, c) == Ok(E("drop", o, c)) /\ h' = Append(h, [do |-> "drop", o |-> o, c |-> c])
Clear == Ok([op |-> "clear", t |-> st.now]) /\ h' = Append(h, [do |-> "clear"])
\* a drain process calls all_dropped / lets the drop through
AllDropped(o) == /\ st.pend[o].ph = "drain" /\ st.pend[o].due = st.now
                 /\ Ok([op |-> "ahook", t |-> st.now, k |-> "all_dropped", o |-> o,
                        s |-> st.pend[o].src, c |-> st.pend[o].cnt])
                 /\ UNCHANGED h
Through(o) == /\ st.pend[o].ph = "hook" /\ st.exp = <<>>
              /\ Ok([op |-> "ahook", t |-> st.now, k |-> "dropped", o |-> Parent(st, o),
                     s |-> st.pend[o].src, c |-> st.pend[o].cnt])
              /\ UNCHANGED h
More == st.exp # <<>> /\ Ok(Head(st.exp) @@ [op |-> "ahook", t |-> st.now]) /\ UNCHANGED h
Time == st.now < MaxTime /\ Late(st, st.now + 1) = "" /\ st' = Tick(st, st.now + 1) /\ h' = Append(h, [do |-> "tick"])

Next == \/ \E o \in 1 .. st.n, c \in Counts : Raise(o, c) \/ Drop(o, c)
        \/ Clear \/ Time \/ More
        \/ \E o \in 1 .. st.n : AllDropped(o) \/ Through(o)
Bound == Len(h) <= MaxOps
Emit == h' = h \/ PrintT("@@GEN " \o ToJson(h'))

\* ---- stated independently of the actions ----
Held(o) == IF st.tot[o] > 0 THEN st.tot[o] ELSE IF st.pend[o].ph # "none" THEN st.pend[o].cnt ELSE 0
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Kids(o) == {x \in 2 .. st.n : Parent(st, x) = o /\ o # x}
RECURSIVE Desc(_)
Desc(o) == UNION {{x} \cup Desc(x) : x \in Kids(o)}
TotalsExact == \A o \in 1 .. st.n : st.tot[o] = st.src[o] + Sum([x \in Kids(o) |-> Held(x)], Kids(o))
NonNegative == \A o \in 1 .. st.n : st.src[o] >= 0 /\ st.tot[o] >= 0
\* nothing below an object that is draining is outstanding or still draining
DrainOnlyWhenQuiet == \A o \in 1 .. st.n : st.pend[o].ph # "none" =>
      st.tot[o] = 0 /\ \A d \in Desc(o) : st.tot[d] = 0 /\ st.pend[d].ph = "none"
\* some action is enabled for every pending object: it cannot be forgotten
NoneForgotten == \A o \in 1 .. st.n : (st.pend[o].ph = "drain" /\ st.pend[o].due = st.now /\ st.exp = <<>>)
      => ENABLED AllDropped(o)
=============================================================================
