------------------------------- MODULE MC_Globs -------------------------------
EXTENDS Globs, Json, FiniteSets
CONSTANTS PAlpha, SAlpha, MaxP, MaxS
VARIABLES p, s, h
View == <<p, s>>
Init == p = <<>> /\ s = <<>> /\ h = <<>>
Next == \/ \E c \in PAlpha : s = <<>> /\ Len(p) < MaxP /\ p' = Append(p, c) /\ s' = s /\ h' = <<[do |-> "p", op |-> "p", p |-> p']>>
        \/ \E c \in SAlpha : Len(s) < MaxS /\ s' = Append(s, c) /\ p' = p /\ h' = <<>>
Emit == h' = <<>> \/ PrintT("@@GEN " \o ToJson(h'))
\* a glob matches exactly when its characters can be expanded to the whole string
RECURSIVE Expands(_, _)
Expands(q, t) == IF q = <<>> THEN t = <<>>
                 ELSE \E n \in 0 .. Len(t) :
                        /\ CASE Head(q) = "*" -> TRUE [] Head(q) = "+" -> n > 0 [] Head(q) = "?" -> n = 1
                             [] OTHER -> n = 1 /\ t[1] = Head(q)
                        /\ Expands(Tail(q), SubSeq(t, n + 1, Len(t)))
WholeString == p # <<>> => MatchAll(p, s) = Expands(p, s)
\* a scope matches the ends of a string, thus whenever it matches the whole
Ends == p # <<>> => Match(p, s) = \E i \in 0 .. Len(s) : Expands(p, SubSeq(s, i + 1, Len(s)))
StarStar == MatchAll(<<"*">> \o p \o <<"*">>, s) = (p = <<>> \/ \E i \in 0 .. Len(s), j \in 0 .. Len(s) : i <= j /\ Expands(p, SubSeq(s, i + 1, j)))
Literal == (\A i \in DOMAIN p : p[i] \notin {"*", "+", "?"}) /\ p # <<>> => MatchAll(p, s) = (p = s)
=============================================================================
