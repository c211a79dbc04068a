---------------------------- MODULE MC_Recording ----------------------------
EXTENDS Recording, Json
CONSTANTS MaxOps, NK
VARIABLES st, h, log, now
View == <<st, log, now, Len(h)>>
Init == st = Init0([cn |-> <<"c1", "c2">>, tn |-> <<"t1", "Tx", "t 3">>]) /\ h = <<>> /\ log = <<>> /\ now = 0
Go(e0) == \E dt \in {0, 4} :
  LET e == e0 @@ [t |-> now + dt] IN
  /\ st' = Step(st, e) /\ h' = Append(h, [do |-> e.op] @@ e) /\ log' = log \o Do(st, e).log /\ now' = now + dt
Quiet(e0) == LET e == e0 @@ [t |-> now] IN st' = Step(st, e) /\ h' = Append(h, [do |-> e.op] @@ e) /\ log' = log \o Do(st, e).log /\ UNCHANGED now
Rs == {0} \cup DOMAIN st.r
Begun(c, k) == c # 0 /\ st.c[c].ch[k] # 0
Next == Len(h) < MaxOps /\
  IF h = <<>> THEN \E b \in BOOLEAN : Quiet([op |-> "detail", c |-> 1, on |-> b])
  ELSE IF Len(h) = 1 THEN Quiet([op |-> "stream", c |-> 1, n |-> "a", ty |-> ""])
  ELSE IF Len(h) = 2 THEN \E s \in {0, 1} : Quiet([op |-> "enable", k |-> 1, s |-> s])
  ELSE \E k \in 1 .. NK :
     \/ \E c \in {0, 1}, n \in {"main", "a"}, p \in Rs :
          (c = 0 => n = "main") /\ ~Begun(c, k) /\ (p # 0 => p # st.t[k].rec) /\ Go([op |-> "begin", k |-> k, c |-> c, at |-> 0, n |-> n, label |-> "", desc |-> "", par |-> p])
     \/ \E c \in {0, 1}, f \in BOOLEAN : Go([op |-> "end", k |-> k, c |-> c, at |-> 0, free |-> f])
     \/ k = 1 /\ \E f \in BOOLEAN : Quiet([op |-> "rec", k |-> 1, c |-> 1, n |-> "a", label |-> "ev", desc |-> "", at |-> 0, keep |-> f])
     \/ k = 1 /\ Quiet([op |-> "freestream", c |-> 1, s |-> 1])
     \/ k = 1 /\ \E a, b \in DOMAIN st.r : a # b /\ st.r[a].life # "freed" /\ st.r[b].life # "freed" /\ Quiet([op |-> "link", a |-> a, b |-> b, kind |-> "child"])
     \/ k = 1 /\ Quiet([op |-> "close"])
Emit == PrintT("@@GEN " \o ToJson(h'))
Of(i) == SelectSeq(log, LAMBDA x : x.r = "r" \o Str(i))
Ranks(i) == LET q == Of(i) IN [j \in DOMAIN q |-> q[j].k]
\* opened once and first, closed once, freed once and last, nothing after that
Life == \A i \in DOMAIN st.r :
  LET q == Ranks(i) IN
  /\ q # <<>> /\ q[1] = 1 /\ Count(q, 1) = 1 /\ Count(q, 3) <= 1 /\ Count(q, 4) <= 1
  /\ Count(q, 4) = 1 => q[Len(q)] = 4 /\ q[Len(q) - 1] = 3
  /\ (Count(q, 3) = 1) = (st.r[i].life # "open") /\ (Count(q, 4) = 1) = (st.r[i].life = "freed")
\* the attributes of a transaction are recorded while its record is open
AttrsInside == \A i \in DOMAIN st.r : LET q == Of(i) IN
  \A a, b \in DOMAIN q : (SubSeq(q[b].x, 1, 4) = "attr" /\ a < b) => q[a].k < 3
Times == \A k \in 1 .. NT : st.t[k].end = -1 \/ st.t[k].beg <= st.t[k].end
Handles == \A k \in 1 .. NT : st.t[k].rec # 0 => st.t[k].end = -1 /\ (st.r[st.t[k].rec].life = "open" \/ st.s[st.r[st.t[k].rec].s].life = "freed")
=============================================================================
