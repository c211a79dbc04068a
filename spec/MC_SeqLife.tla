----------------------------- MODULE MC_SeqLife -----------------------------
(* A few sequence objects, parents and children, hooks ended in every order, *)
(* kill at every point, one waiter for a state.  tr is a ghost: what each    *)
(* run did, in order.                                                        *)
EXTENDS SeqLife, Json
CONSTANTS MaxOps, MaxRuns, MaxTime
VARIABLES st, tr, h, hit
Masks == {<<16>>, <<32, 128>>, <<64>>}
View == <<st, tr, hit>>
T == [t |-> st.now]
Init == st = Init0(0) /\ tr = <<>> /\ h = <<>> /\ hit = FALSE
Fire(e) == Bad(st, e @@ T) = "" /\ st' = Step(st, e @@ T)
Sys(e, s, w) == Fire(e) /\ tr' = [tr EXCEPT ![s] = Append(@, w)] /\ UNCHANGED <<h, hit>>
Rn == DOMAIN st.runs
Start(o, par, pre, ob) ==
  /\ Len(st.runs) < MaxRuns /\ ~\E s \in Rn : st.runs[s].o = o /\ st.runs[s].life # "gone"
  /\ par > 0 => Live(st, par) /\ st.runs[par].inh = "body"
  /\ Fire([op |-> "start", o |-> o, par |-> par, pre |-> pre, prio |-> -1, apo |-> ob, sp |-> ob])
  /\ tr' = Append(tr, <<>>) /\ UNCHANGED hit
  /\ h' = Append(h, [do |-> "start", o |-> o, par |-> IF par > 0 THEN st.runs[par].o ELSE 0, pre |-> pre, apo |-> ob, sp |-> ob])
Go(s) == /\ Live(st, s) /\ st.runs[s].inh # "" /\ (st.runs[s].inh = "body" => ~\E k \in Rn : st.runs[k].par = s /\ Live(st, k))
         /\ Fire([op |-> "out", s |-> s, h |-> st.runs[s].inh]) /\ tr' = [tr EXCEPT ![s] = Append(@, "out")]
         /\ h' = Append(h, [do |-> "go", o |-> st.runs[s].o]) /\ UNCHANGED hit
Kill(s) == /\ Live(st, s) /\ \A k \in Desc(st, s) : st.runs[k].inh # ""
           /\ Fire([op |-> "kill", s |-> s]) /\ tr' = [k \in Rn |-> IF k \in Desc(st, s) THEN Append(tr[k], "kill") ELSE tr[k]]
           /\ h' = Append(h, [do |-> "kill", o |-> st.runs[s].o]) /\ UNCHANGED hit
Wait(o, m) == /\ st.wt = <<>> /\ Fire([op |-> "wcall", w |-> 1, o |-> o, mask |-> m]) /\ hit' = (st.os[o] \in Range(m))
              /\ h' = Append(h, [do |-> "wait", o |-> o, mask |-> m]) /\ UNCHANGED tr
Time == /\ st.now < MaxTime /\ Late(st) = "" /\ st' = Tick(st, st.now + 1) /\ h' = Append(h, [do |-> "tick"]) /\ UNCHANGED <<tr, hit>>
Hook(s) == /\ Live(st, s) /\ st.runs[s].inh = "" /\ Skip(st.runs[s].todo) # <<>>
           /\ LET x == Head(Skip(st.runs[s].todo)) IN
              \/ x.k = "hook" /\ Sys([op |-> "in", s |-> s, h |-> x.h, st |-> x.st], s, x.h)
              \/ x.k = "obj" /\ Sys([op |-> "obj", s |-> s, k |-> x.h], s, x.h)
              \/ x.k = "pdo" /\ Sys([op |-> "pdo", p |-> st.runs[s].par, h |-> x.h, item |-> FALSE, s |-> s], s, x.h)
              \/ x.k = "ret" /\ Sys([op |-> "ret", s |-> s, st |-> FINISHED], s, "ret")
KDrop(s) == st.runs[s].life = "killed" /\ st.runs[s].raised /\ Sys([op |-> "obj", s |-> s, k |-> "drop"], s, "drop")
KHook(s) == \E k \in st.runs[s].dying : ~st.runs[k].raised /\ Sys([op |-> "killhook", s |-> k, root |-> s], k, "killhook")
KRet(s) == st.runs[s].life = "killed" /\ ~st.runs[s].raised /\ (\A r \in Rn : st.runs[r].dying = {})
           /\ Sys([op |-> "ret", s |-> s, st |-> STOPPED], s, "ret")
Wret == \E i \in DOMAIN st.wt : st.wt[i].seen /\ Fire([op |-> "wret", w |-> 1]) /\ UNCHANGED <<tr, h, hit>>
Next == \/ \E o \in 1 .. 2, par \in 0 .. Len(st.runs), pre \in BOOLEAN, ob \in BOOLEAN : Start(o, par, pre, ob)
        \/ \E s \in Rn : Go(s) \/ Kill(s) \/ Hook(s) \/ KDrop(s) \/ KHook(s) \/ KRet(s)
        \/ \E o \in 1 .. 2, m \in Masks : Wait(o, m)
        \/ Time \/ Wret
Bound == Len(h) <= MaxOps
Emit == h' = h \/ PrintT("@@GEN " \o ToJson(h'))
\* ---- the guarantees, from what happened
Canon == [out |-> 0, kill |-> 0, killhook |-> 0, raise |-> 1, pre_start |-> 2, pre_body |-> 3, pre_do |-> 4, mid_do |-> 5, body |-> 6,
          post_do |-> 7, post_body |-> 8, post_start |-> 9, drop |-> 10, ret |-> 11]
RECURSIVE Rises(_, _, _)
Rises(q, i, last) == IF i > Len(q) THEN TRUE ELSE LET k == Canon[q[i]] IN
                     IF k = 0 THEN Rises(q, i + 1, last) ELSE k > last /\ Rises(q, i + 1, k)
Order == \A s \in Rn : Rises(tr[s], 1, 0)
Has(q, x) == \E i \in DOMAIN q : q[i] = x
Balanced == \A s \in Rn : (Has(tr[s], "drop") => Has(tr[s], "raise")) /\ (Has(tr[s], "ret") => Has(tr[s], "drop") = Has(tr[s], "raise"))
KilledStays == \A s \in Rn : \A i \in DOMAIN tr[s] : tr[s][i] = "kill" => \A j \in i + 1 .. Len(tr[s]) : tr[s][j] \in {"drop", "killhook", "ret"}
KidsFirst == \A s, k \in Rn : st.runs[k].par = s /\ Live(st, k) => Live(st, s) /\ st.runs[s].inh = "body"
=============================================================================
