------------------------------- MODULE Packer -------------------------------
(* Packing values into a stream of bits and unpacking them again.           *)
EXTENDS Integers, Sequences, TLC
\* bits are sequences of 0 and 1, the lowest bit first
\* a value is [k: "bits", n: width, v: bits] / [k: "str", v: bytes] / [k: "obj", v: sequence of values] / [k: "null"]
Init0(cfg) == [be |-> cfg.be, md |-> cfg.md, bits |-> <<>>, pos |-> 0, avail |-> 0]
Zeros(n) == [i \in 1 .. n |-> 0]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Fit(v, n) == [i \in 1 .. n |-> IF i <= Len(v) THEN v[i] ELSE 0]
Ord(st, v) == IF st.be THEN Rev(v) ELSE v
ByteBits(b) == [i \in 1 .. 8 |-> (b \div (2 ^ (i - 1))) % 2]
RECURSIVE Num(_)
Num(v) == IF v = <<>> THEN 0 ELSE Head(v) + 2 * Num(Tail(v))
RECURSIVE StrBits(_, _), PackV(_, _), PackAll(_, _)
StrBits(st, v) == IF v = <<>> THEN IF st.md THEN Zeros(8) ELSE <<>> ELSE Ord(st, ByteBits(Head(v))) \o StrBits(st, Tail(v))
PackV(st, x) == CASE x.k = "bits" -> Ord(st, Fit(x.v, x.n))
                  [] x.k = "str" -> StrBits(st, x.v)
                  [] x.k = "null" -> IF st.md THEN Zeros(4) ELSE <<>>
                  [] OTHER -> (IF st.md THEN <<1, 0, 0, 0>> ELSE <<>>) \o PackAll(st, x.v)
PackAll(st, xs) == IF xs = <<>> THEN <<>> ELSE PackV(st, Head(xs)) \o PackAll(st, Tail(xs))
\* reading n bits at position p of a stream
At(st, p, n) == [i \in 1 .. n |-> IF p + i <= Len(st.bits) THEN st.bits[p + i] ELSE 0]
Enough(st, p, n) == p + n <= st.avail
\* u = [p: position, r: what was read, err: number of errors]
UBits(st, p, n) == IF Enough(st, p, n) THEN [p |-> p + n, r |-> Ord(st, At(st, p, n)), err |-> 0] ELSE [p |-> p, r |-> Zeros(n), err |-> 1]
RECURSIVE UChars(_, _, _, _)
UChars(st, p, num, acc) ==
    LET b == Num(Ord(st, At(st, p, 8)))
    IN IF Enough(st, p, 8) /\ (IF num = -1 THEN b # 0 ELSE Len(acc) < num) THEN UChars(st, p + 8, num, Append(acc, b))
       ELSE [p |-> IF num = -1 /\ Enough(st, p, 8) THEN p + 8 ELSE p, r |-> acc, err |-> 0]
\* reading into a value of the shape of x
RECURSIVE UnpackV(_, _, _), UnpackAll(_, _, _)
UnpackV(st, p, x) ==
    CASE x.k = "bits" -> LET u == UBits(st, p, x.n) IN [u EXCEPT !.r = [x EXCEPT !.v = u.r]]
      [] x.k = "str" -> LET u == UChars(st, p, -1, <<>>) IN [u EXCEPT !.r = [x EXCEPT !.v = u.r]]
      [] OTHER -> LET q == IF st.md THEN p + 4 ELSE p
                      some == ~st.md \/ At(st, p, 4) # Zeros(4)
                  IN IF ~some THEN [p |-> q, r |-> x, err |-> 0]
                     ELSE IF x.k = "null" THEN [p |-> q, r |-> x, err |-> 1]
                     ELSE LET u == UnpackAll(st, q, x.v) IN [u EXCEPT !.r = [x EXCEPT !.v = u.r]]
UnpackAll(st, p, xs) ==
    IF xs = <<>> THEN [p |-> p, r |-> <<>>, err |-> 0]
    ELSE LET u == UnpackV(st, p, Head(xs)) w == UnpackAll(st, u.p, Tail(xs))
         IN [p |-> w.p, r |-> <<u.r>> \o w.r, err |-> u.err + w.err]
\* an array of len bits of which size (-1: all) are meant
Size(e) == IF e.size = -1 THEN Len(e.v) ELSE e.size
TooBig(e) == Size(e) > Len(e.v)
UArr(st, e) == IF TooBig(e) THEN [p |-> st.pos, r |-> e.v, err |-> 1]
               ELSE LET u == UBits(st, st.pos, Size(e))
                    IN [u EXCEPT !.r = [i \in DOMAIN e.v |-> IF u.err = 0 /\ i <= Size(e) THEN u.r[i] ELSE e.v[i]]]
\* the groups of w bits in which the stream is handed out; the last one may be short
Group(st, i, w) == LET n == Len(st.bits) - (i - 1) * w
                   IN Ord(st, Fit(SubSeq(st.bits, (i - 1) * w + 1, (i - 1) * w + (IF n < w THEN n ELSE w)), w))
Groups(st, w) == [i \in 1 .. (Len(st.bits) + w - 1) \div w |-> Group(st, i, w)]
\* a stream handed over as one number, as bytes or as ints
Avail(st, how) == LET n == Len(st.bits)
                  IN IF how = "bits" THEN (IF n > 4096 THEN n ELSE 4096)
                     ELSE IF how = "bytes" THEN ((n + 7) \div 8) * 8 ELSE IF how = "ints" THEN ((n + 31) \div 32) * 32 ELSE n
Given(st, how) == [st EXCEPT !.avail = Avail(st, how), !.pos = 0]
Pack(st, b) == [st EXCEPT !.bits = @ \o b]
Step(st, e) ==
    CASE e.op = "reset" -> [st EXCEPT !.bits = <<>>, !.pos = 0, !.avail = 0]
      [] e.op = "pack" -> Pack(st, PackV(st, e.v))
      [] e.op = "packarr" -> IF TooBig(e) THEN st ELSE Pack(st, Ord(st, SubSeq(e.v, 1, Size(e))))
      [] e.op = "done" -> [st EXCEPT !.avail = Len(st.bits), !.pos = 0]
      [] e.op = "give" -> Given(st, e.how)
      [] e.op = "unpack" -> [st EXCEPT !.pos = UnpackV(st, st.pos, e.old).p]
      [] e.op = "unpackarr" -> [st EXCEPT !.pos = UArr(st, e).p]
      [] e.op = "unpackstr" -> [st EXCEPT !.pos = UChars(st, st.pos, e.num, <<>>).p]
      [] e.op = "opack" -> [st EXCEPT !.bits = PackAll(st, e.v.v), !.pos = 0, !.avail = Len(PackAll(st, e.v.v))]
      [] e.op = "ounpack" -> LET g == Given(st, e.how) IN [g EXCEPT !.pos = 0, !.avail = UnpackAll(g, 0, e.old.v).p]
      [] OTHER -> st
Out(st) == [bits |-> st.bits, bytes |-> Groups(st, 8), ints |-> Groups(st, 32)]
Exp(st, e) ==
    CASE e.op = "packarr" -> [err |-> IF TooBig(e) THEN 1 ELSE 0]
      [] e.op = "done" -> Out(st) @@ [size |-> Len(st.bits)]
      [] e.op = "unpack" -> LET u == UnpackV(st, st.pos, e.old) IN [r |-> u.r, err |-> u.err]
      [] e.op = "unpackarr" -> LET u == UArr(st, e) IN [r |-> u.r, err |-> u.err]
      [] e.op = "unpackstr" -> LET u == UChars(st, st.pos, e.num, <<>>) IN [r |-> u.r, err |-> 0]
      [] e.op = "opack" -> LET n == Step(st, e) IN [size |-> Len(n.bits), data |-> IF e.how = "bits" THEN n.bits ELSE Out(n)[e.how]]
      [] e.op = "ounpack" -> LET u == UnpackAll(Given(st, e.how), 0, e.old.v) IN [r |-> [e.old EXCEPT !.v = u.r], err |-> u.err, size |-> u.p]
      [] OTHER -> [none |-> 0]
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op \in {"cfg", "reset", "give"} -> ""
      [] e.op = "pack" -> IF e.err # 0 THEN "pack-error" ELSE ""
      [] OTHER -> LET x == Exp(st, e) IN IF \A k \in DOMAIN x : e[k] = x[k] THEN "" ELSE e.op
=============================================================================
