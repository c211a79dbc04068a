---------------------------- MODULE MC_Sequencer ----------------------------
(* Two sequences and one driver: every interleaving of requests, sends,     *)
(* relevance changes, driver calls, item_done and responses, with FIFO      *)
(* arbitration as the code promises it.  del/sent/resp are ghosts.          *)
EXTENDS Sequencer, Json
CONSTANTS MaxOps, MaxTime, MaxItems, Calls, WithRsp
VARIABLES st, ni, sent, del, ngt, h
Runs == 1 .. 2
View == <<st.now, st.q, [s \in Runs |-> [st.runs[s] EXCEPT !.relT = 0, !.relN = 0, !.qN = 0]], st.pend, st.sel, st.item,
          st.called, st.gets, ni, sent, del>>
T == [t |-> st.now]
Init == /\ st = [Init0(0) EXCEPT !.runs = <<Run0, Run0>>]
        /\ ni = 0 /\ sent = <<>> /\ del = <<>> /\ ngt = 0
        /\ h = <<[do |-> "run", s |-> 1], [do |-> "run", s |-> 2]>>
Fire(e) == Bad(st, e @@ T) = "" /\ st' = Step(st, e @@ T)
Env(e, a) == Fire(e) /\ h' = Append(h, a)
\* ---- stimulus
Req(s) == /\ st.runs[s].st = "idle" /\ ni < MaxItems /\ ni' = ni + 1
          /\ Env([op |-> "req", s |-> s], [do |-> "req", s |-> s]) /\ UNCHANGED <<sent, del, ngt>>
Send(s) == /\ st.runs[s].st = "granted"
           /\ LET it == "v" \o ToString(Len(sent)) IN
              Env([op |-> "send", s |-> s, item |-> it, tid |-> 0], [do |-> "send", s |-> s]) /\ sent' = Append(sent, it)
           /\ UNCHANGED <<ni, del, ngt>>
Call(k) == /\ st.pend = "" /\ (k \in {"next", "try"} => ~st.called /\ (k = "try" => st.sel = 0))
           /\ Env([op |-> "dcall", k |-> k], [do |-> k]) /\ UNCHANGED <<ni, sent, del, ngt>>
Done(r) == /\ st.pend = "" /\ st.sel # 0 /\ st.runs[st.sel].st = "sent" /\ st.item \in {del[i] : i \in DOMAIN del}
           /\ Env([op |-> "done", v |-> IF r THEN "r" ELSE "-", tid |-> 1, err |-> DeliverErr(st, st.sel), hand |-> <<>>],
                  [do |-> "done", rsp |-> r]) /\ UNCHANGED <<ni, sent, del, ngt>>
Rel(s) == Env([op |-> "rel", s |-> s, v |-> ~st.runs[s].rel], [do |-> "rel", s |-> s, v |-> ~st.runs[s].rel])
          /\ UNCHANGED <<ni, sent, del, ngt>>
RCall(s) == /\ ngt < 1 /\ ngt' = ngt + 1
            /\ Env([op |-> "rcall", s |-> s, g |-> ngt, tid |-> -1], [do |-> "rget", s |-> s]) /\ UNCHANGED <<ni, sent, del>>
Time == /\ st.now < MaxTime /\ Late(st) = "" /\ st' = Tick(st, st.now + 1) /\ h' = Append(h, [do |-> "tick"])
        /\ UNCHANGED <<ni, sent, del, ngt>>
\* ---- the system's own moves
Grant == \E i \in DOMAIN st.q :
   /\ st.runs[st.q[i]].rel
   /\ \A j \in 1 .. i - 1 : ~st.runs[st.q[j]].rel
   /\ Fire([op |-> "grant", s |-> st.q[i]]) /\ UNCHANGED <<ni, sent, del, ngt, h>>
Got == IF del # <<>> /\ del[Len(del)] = st.item THEN del ELSE Append(del, st.item)
Dret == /\ st.pend # "" /\ st.sel # 0 /\ st.runs[st.sel].st = "sent"
        /\ Fire([op |-> "dret", k |-> st.pend, item |-> st.item, own |-> st.sel, err |-> 0])
        /\ del' = Got /\ UNCHANGED <<ni, sent, ngt, h>>
TryNone == /\ st.pend = "try" /\ (st.sel = 0 => \A i \in DOMAIN st.q : ~st.runs[st.q[i]].rel)
           /\ (st.sel # 0 => st.runs[st.sel].st = "granted")
           /\ Fire([op |-> "dret", k |-> "try", item |-> "none", own |-> 0, err |-> IF st.sel = 0 THEN 0 ELSE 1])
           /\ UNCHANGED <<ni, sent, del, ngt, h>>
Fin(s) == Fire([op |-> "fin", s |-> s]) /\ UNCHANGED <<ni, sent, del, ngt, h>>
Rret == \E i \in DOMAIN st.gets : LET g == st.gets[i] ix == MatchIx(st.runs[g.s].rq, g.tid) IN
          /\ ix # {} /\ Fire([op |-> "rret", s |-> g.s, g |-> g.g, tid |-> g.tid, v |-> "r", rtid |-> 1]) /\ UNCHANGED <<ni, sent, del, ngt, h>>
Next == \/ \E s \in Runs : Req(s) \/ Send(s) \/ Rel(s) \/ (st.runs[s].st = "done" /\ Fin(s)) \/ (WithRsp /\ RCall(s))
        \/ \E k \in Calls : Call(k)
        \/ \E r \in (IF WithRsp THEN BOOLEAN ELSE {FALSE}) : Done(r)
        \/ Time \/ Grant \/ Dret \/ TryNone \/ Rret
Bound == Len(h) <= MaxOps
Emit == h' = h \/ PrintT("@@GEN " \o ToJson(h'))
\* ---- the guarantees
ExactlyOnceInOrder == Len(del) <= Len(sent) /\ del = SubSeq(sent, 1, Len(del))
OneAtATime == Cardinality({s \in Runs : st.runs[s].st \in {"granted", "sent"}}) <= 1
Selected == st.sel # 0 <=> \E s \in Runs : st.runs[s].st \in {"granted", "sent"}
Queue == \A s \in Runs : (st.runs[s].st = "wait") = (IdxOf(st.q, s) # 0)
InStep == Len(sent) - Len(del) <= 1 /\ (Len(sent) > Len(del) => st.sel # 0)
=============================================================================
