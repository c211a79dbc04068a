----------------------------- MODULE MC_Report -----------------------------
(* A root and one component: every history of settings, then one message.   *)
EXTENDS Report, Json
CONSTANTS MaxOps
VARIABLES st, h, r
View == <<st, h>>
Par == <<0, 1>>
Init == /\ st = Init0([par |-> Par, name |-> <<"reporter", "c2">>, base |-> <<0, 0, 0, 0>>, ids |-> None, quit |-> 0, max |-> 0, rules |-> <<>>])
        /\ h = <<>> /\ r = [op |-> "none"]
Vals(w) == CASE w \in {"verb", "idverb", "sevidverb"} -> {100, 300}
             [] w \in {"sevact", "idact", "sevidact"} -> {0, 2, 5}
             [] w \in {"file", "sevfile", "idfile", "sevidfile"} -> {1, 2}
             [] OTHER -> {0, 2}
SetOp == \E c \in 1 .. 2, hier \in BOOLEAN, w \in {"verb", "idverb", "sevidverb", "sevact", "idact", "sevidact", "file", "sevfile", "idfile", "sevidfile", "sevovr", "sevidovr"} :
          \E v \in Vals(w) :
          LET ov == w \in {"sevovr", "sevidovr"}
              e == [op |-> "set", c |-> c, hier |-> hier, what |-> w, sev |-> 1, id |-> "A", v |-> v]
          IN ~(hier /\ (ov \/ c = 2)) /\ r.op = "none" /\ st' = Step(st, e) /\ h' = Append(h, e) /\ UNCHANGED r
MsgOp == \E sev \in {1, 2}, id \in {"A", "B"} :
          LET e == [op |-> "msg", c |-> 2, sev |-> sev, id |-> id, msg |-> "m1", verb |-> 200, how |-> ""]
              x == Message(st, e) IN
          r.op = "none" /\ r' = [op |-> "msg", sev |-> sev, id |-> id, outs |-> x.outs, st |-> st] /\ st' = x.st /\ h' = Append(h, e)
Next == SetOp \/ MsgOp
Bound == Len(h) <= MaxOps
Ren(s) == [i \in DOMAIN s |-> [do |-> s[i].op] @@ s[i]]
Emit == r'.op = "none" \/ PrintT("@@GEN " \o ToJson([par |-> Par, rules |-> <<>>, h |-> Ren(h')]))
\* ---- from the history alone: the last setting of the most specific kind for component 2 ----
Hits(w) == {i \in DOMAIN h : h[i].op = "set" /\ h[i].what = w /\ (h[i].c = 2 \/ h[i].hier)}
Last(w) == h[CHOOSE i \in Hits(w) : \A j \in Hits(w) : j <= i].v
Sev1 == IF r.id = "A" /\ Hits("sevidovr") # {} THEN IF r.sev = 1 THEN Last("sevidovr") ELSE r.sev
        ELSE IF r.sev = 1 /\ Hits("sevovr") # {} THEN Last("sevovr") ELSE r.sev
Pick(p, i, s, sev, d) == IF Hits(p) # {} /\ sev = 1 /\ r.id = "A" THEN Last(p)
                         ELSE IF Hits(i) # {} /\ r.id = "A" THEN Last(i)
                         ELSE IF s # "" /\ Hits(s) # {} /\ sev = 1 THEN Last(s) ELSE d
VerbH == LET x == Pick("sevidverb", "idverb", "", r.sev, -1) IN IF x # -1 THEN x ELSE IF Hits("verb") # {} THEN Last("verb") ELSE 200
ActH == Pick("sevidact", "idact", "sevact", Sev1, <<1, 1, 5, 9>>[Sev1 + 1])
FileH == Pick("sevidfile", "idfile", "sevfile", Sev1, IF Hits("file") # {} THEN Last("file") ELSE 0)
OutH == LET a == IF VerbH < 200 THEN 0 ELSE ActH
            o(to) == <<[to |-> to, sev |-> Sev1, id |-> r.id, msg |-> "m1", comp |-> "c2"]>> IN
        (IF Bit(a, 1) THEN o(0) ELSE <<>>) \o (IF Bit(a, 2) THEN o(FileH) ELSE <<>>)
Settings == r.op = "msg" => r.outs = OutH
=============================================================================
