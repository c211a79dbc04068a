----------------------------- MODULE MC_Packer -----------------------------
(* What was packed is unpacked again, whatever it was and in both orders.   *)
EXTENDS Packer, Json, FiniteSets
CONSTANTS MaxItems, Widths
VARIABLES st, xs
Vals(n) == [1 .. n -> {0, 1}]
B(n, v) == [k |-> "bits", n |-> n, v |-> v]
Bitss == UNION {{B(n, v) : v \in Vals(n)} : n \in Widths}
Strs == {[k |-> "str", v |-> s] : s \in {<<>>, <<65>>, <<195, 164>>, <<97, 98>>}}
Objs == {[k |-> "null"], [k |-> "obj", v |-> <<>>], [k |-> "obj", v |-> <<B(2, <<1, 0>>), [k |-> "null"]>>],
         [k |-> "obj", v |-> <<B(1, <<1>>), [k |-> "obj", v |-> <<B(2, <<1, 0>>)>>], B(3, <<0, 1, 1>>)>>]}
\* an object does not tell how long its strings are
StrObjs == {[k |-> "obj", v |-> <<[k |-> "str", v |-> <<66, 67>>], B(2, <<0, 1>>)>>]}
Add(x) == Len(xs) < MaxItems /\ xs' = Append(xs, x) /\ st' = Step(st, [op |-> "pack", v |-> x])
Init == xs = <<>> /\ st \in {Init0([be |-> be, md |-> md]) : be, md \in BOOLEAN}
Next == \/ \E x \in Bitss : Add(x)
        \/ \E x \in Strs : Add(x)
        \/ \E x \in Objs : Add(x)
        \/ st.md /\ \E x \in StrObjs : Add(x)
Emit == PrintT("@@GEN " \o ToJson([cfg |-> [be |-> st.be, md |-> st.md], xs |-> xs']))
RECURSIVE Blank(_), WidthOf(_, _), Back(_, _)
Blank(x) == CASE x.k = "bits" -> [x EXCEPT !.v = Zeros(x.n)]
              [] x.k = "str" -> [x EXCEPT !.v = <<>>]
              [] x.k = "null" -> x
              [] OTHER -> [x EXCEPT !.v = [i \in DOMAIN x.v |-> Blank(x.v[i])]]
WidthOf(md, x) == CASE x.k = "bits" -> x.n
                    [] x.k = "str" -> 8 * Len(x.v) + (IF md THEN 8 ELSE 0)
                    [] x.k = "null" -> IF md THEN 4 ELSE 0
                    [] OTHER -> (IF md THEN 4 ELSE 0) + (LET RECURSIVE sum(_)
                                                             sum(s) == IF s = <<>> THEN 0 ELSE WidthOf(md, Head(s)) + sum(Tail(s))
                                                         IN sum(x.v))
\* reading back item by item; s is the stream
Back(s, i) == IF i > Len(xs) THEN s.pos = Len(s.bits)
              ELSE LET x == xs[i]
                       u == IF x.k = "str" THEN (LET w == UChars(s, s.pos, IF s.md THEN -1 ELSE Len(x.v), <<>>) IN [w EXCEPT !.r = [x EXCEPT !.v = w.r]])
                            ELSE UnpackV(s, s.pos, Blank(x))
                   IN u.r = x /\ (u.err = 0 \/ (x.k = "null" /\ ~s.md) \/ (x.k = "obj" /\ ~s.md)) /\ Back([s EXCEPT !.pos = u.p], i + 1)
RoundTrip == \A how \in {"same", "bits", "bytes", "ints"} : Back(Given(st, how), 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE WidthOf(st.md, Head(s)) + Sum(Tail(s))
SizeIsSum == Len(st.bits) = Sum(xs)
\* the groups in which a stream is handed out tell all of it
RECURSIVE Flat(_)
Flat(g) == IF g = <<>> THEN <<>> ELSE Ord(st, Head(g)) \o Flat(Tail(g))
GroupsTell == \A w \in {8, 32} : SubSeq(Flat(Groups(st, w)), 1, Len(st.bits)) = st.bits
=============================================================================
