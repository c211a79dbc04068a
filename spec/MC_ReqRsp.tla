----------------------------- MODULE MC_ReqRsp -----------------------------
(* Masters and slaves on a request/response channel: every interleaving.    *)
(* A slave answers the requests it got in order, so a master sees the       *)
(* responses to its requests in order.                                      *)
EXTENDS ReqRsp, Json
CONSTANTS Sizes, MaxReq, MaxOps
VARIABLES st, sent, got, ans, rcv, h
View == <<st, sent, got, ans, rcv>>
Init == /\ \E a, b \in Sizes : st = Init0([req |-> a, rsp |-> b]) /\ h = <<[do |-> "size", req |-> a, rsp |-> b]>>
        /\ sent = <<>> /\ got = <<>> /\ ans = <<>> /\ rcv = <<>>
Nb(s, m, x) == LET e0 == [op |-> "nb", s |-> s, m |-> m, x |-> x]
                   e == e0 @@ [ok |-> F!NbOk(st[s], e0), out |-> F!NbOut(st[s], e0), ap |-> F!NbAp(st[s], e0), other |-> <<>>]
               IN Bad(st, e) = "" /\ st' = Step(st, e)
Hist(s, m, p) == h' = Append(h, [do |-> m, s |-> s, p |-> p])
Call(s, m, p, x) == LET e == [op |-> "call", s |-> s, p |-> p, m |-> m, x |-> x] IN Bad(st, e) = "" /\ st' = Step(st, e) /\ Hist(s, m, p)
Free(s, p) == \A k \in DOMAIN st[s].blk : st[s].blk[k].p # p
Q(s, p) == ToString(Len(sent) + 1)
\* masters are processes 1 and 2, the slave is process 3; a master has one request under way at a time
Next ==
  \/ /\ Len(sent) < MaxReq /\ F!Pending(st.req, "put") = {}
     /\ \/ Nb("req", "try_put", ToString(Len(sent) + 1)) /\ Hist("req", "try_put", 0) /\ sent' = (IF F!Full(st.req) THEN sent ELSE Append(sent, Len(sent) + 1)) /\ UNCHANGED <<got, ans, rcv>>
        \/ \E p \in {1, 2} : Call("req", "put", p, ToString(Len(sent) + 1)) /\ UNCHANGED <<sent, got, ans, rcv>>
  \/ /\ Free("req", 3) /\ Free("rsp", 3)
     /\ \/ Call("req", "get", 3, "") /\ UNCHANGED <<sent, got, ans, rcv>>
        \/ Nb("req", "try_get", "") /\ Hist("req", "try_get", 0) /\ got' = (IF st.req.q = <<>> THEN got ELSE Append(got, Head(st.req.q))) /\ UNCHANGED <<sent, ans, rcv>>
        \/ Len(ans) < Len(got) /\ Call("rsp", "put", 3, got[Len(ans) + 1]) /\ UNCHANGED <<sent, got, ans, rcv>>
  \/ /\ F!Pending(st.rsp, "get") = {} /\ Call("rsp", "get", 1, "") /\ UNCHANGED <<sent, got, ans, rcv>>
  \/ \E s \in Sides : \E k \in DOMAIN st[s].blk :
        LET b == st[s].blk[k] x == IF b.m = "put" THEN b.x ELSE Head(st[s].q)
            e == [op |-> "ret", s |-> s, p |-> b.p, m |-> b.m, x |-> x, out |-> IF b.m = "put" THEN <<>> ELSE <<x>>,
                  ap |-> IF b.m = "put" THEN F!Taps(st[s], "put", <<x>>) ELSE <<>>, other |-> <<>>]
        IN /\ b.m # "put" => st[s].q # <<>>
           /\ Bad(st, e) = "" /\ st' = Step(st, e) /\ UNCHANGED h
           /\ sent' = IF s = "req" /\ b.m = "put" THEN Append(sent, Len(sent) + 1) ELSE sent
           /\ got' = IF s = "req" /\ b.m = "get" THEN Append(got, x) ELSE got
           /\ ans' = IF s = "rsp" /\ b.m = "put" THEN Append(ans, x) ELSE ans
           /\ rcv' = IF s = "rsp" /\ b.m = "get" THEN Append(rcv, x) ELSE rcv
Bound == Len(h) <= MaxOps
Emit == h' = h \/ PrintT("@@GEN " \o ToJson(h'))
\* independent statement of the guarantee
InOrder == /\ \A i \in DOMAIN got : got[i] = ToString(i)
           /\ got \o st.req.q = [i \in DOMAIN sent |-> ToString(i)]
           /\ \A i \in DOMAIN rcv : rcv[i] = ToString(i)
           /\ rcv \o st.rsp.q = ans
Capacity == \A s \in Sides : st[s].size > 0 => Len(st[s].q) <= st[s].size
=============================================================================
