------------------------------ MODULE MC_Printer ------------------------------
(* Two objects whose content grows: numbers, references, headers and arrays   *)
(* of objects, referring to each other and to themselves.                     *)
EXTENDS Printer, Json
CONSTANT MaxItems
VARIABLES st, h
View == st
Bits(v) == [b |-> [i \in 1..12 |-> (v \div (2 ^ (i - 1))) % 2], neg |-> FALSE]
Obj(n, id) == [t |-> "PN", n |-> n, full |-> n, id |-> id, comp |-> FALSE, kids |-> <<>>, en |-> TRUE, f |-> <<>>, items |-> <<>>]
Init == st = [objs |-> <<Obj("o", "@1"), Obj("x1", "@2")>>] /\ h = <<>>
Item(k, v, n) ==
  CASE k = "num" -> [k |-> "int", n |-> n, v |-> Bits(v), size |-> 8, rad |-> "dec", t |-> ""]
    [] k = "arr" -> [k |-> "arr", n |-> n, t |-> "array", size |-> 2,
                     items |-> <<[k |-> "obj", n |-> "[0]", o |-> v], [k |-> "int", n |-> "[1]", v |-> Bits(5), size |-> 8, rad |-> "", t |-> ""]>>]
    [] OTHER -> [k |-> k, n |-> n, o |-> v]
Next == \E o \in 1..2, x \in {<<"num", 200>>} \cup ({"obj", "arr"} \X (0..2)) \cup {<<"hdr", 2>>} :
          /\ Len(h) < MaxItems
          /\ st' = [st EXCEPT !.objs[o].items = Append(@, Item(x[1], x[2], "i" \o ToString(Len(@))))]
          /\ h' = Append(h, [do |-> "item", o |-> o, k |-> x[1], v |-> x[2]])
Emit == h # <<>> => PrintT("@@GEN " \o ToJson(h))
Kn(d, ref) == [full |-> FALSE, ident |-> TRUE, type |-> TRUE, size |-> TRUE, depth |-> d, ref |-> ref, root |-> FALSE, radix |-> TRUE, defrad |-> "hex",
               radstr |-> [bin |-> "'b", oct |-> "'o", dec |-> "'d", hex |-> "'h", uns |-> "'d", time |-> ""]]
AllRows(o) == Rows(st, Kn(-1, TRUE), o)
\* rows nest: each row is at most one level below the one before it, and only what has content has rows below it
Nested == \A o \in 1..2 : LET r == AllRows(o) IN
            /\ r[1].l = 0 /\ \A i \in 2..Len(r) : r[i].l >= 1 /\ r[i].l <= r[i - 1].l + 1
            /\ \A i \in 2..Len(r) : r[i].l = r[i - 1].l + 1 => r[i - 1].v \notin {"<null>"} /\ (r[i - 1].ref \/ r[i - 1].v = "-")
\* a depth limit removes exactly the rows below it
Limited == \A o \in 1..2, d \in 0..3 :
            LET r == AllRows(o) IN
            (\A a \in 1..2 : \A i \in DOMAIN st.objs[a].items : st.objs[a].items[i].k # "arr") =>
               Rows(st, Kn(d, TRUE), o) = SelectSeq(r, LAMBDA x : x.l <= d)
\* everything an object contains is directly below it, once, in order
Direct == \A o \in 1..2 : LET r == SelectSeq(AllRows(o), LAMBDA x : x.l = 1) IN
            [i \in DOMAIN r |-> r[i].n] = [i \in DOMAIN st.objs[o].items |-> st.objs[o].items[i].n]
\* an object is never printed in full inside itself: the objects open at a row are all different
RECURSIVE OpenAt(_, _, _)
OpenAt(r, i, l) == IF i = 0 THEN <<>> ELSE IF r[i].l < l THEN Append(OpenAt(r, i - 1, r[i].l), r[i].v) ELSE OpenAt(r, i - 1, l)
NoCycle == \A o \in 1..2 : LET r == AllRows(o) IN \A i \in DOMAIN r :
             LET op == SelectSeq(OpenAt(r, i - 1, r[i].l), LAMBDA v : v # "-") IN \A a, b \in DOMAIN op : a # b => op[a] # op[b]
\* references only change the last column
RefsOnly == \A o \in 1..2 : LET a == AllRows(o)
                                b == Rows(st, Kn(-1, FALSE), o) IN
             Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].l = b[i].l /\ a[i].n = b[i].n /\ a[i].t = b[i].t
\* numbers: the digits denote the value
RECURSIVE ValOf(_, _)
ValOf(d, base) == IF d = <<>> THEN 0 ELSE d[1] + base * ValOf(Tail(d), base)
ASSUME \A v \in 0..511 : LET b == Bits(v).b IN
         /\ ValOf(Digits(b, 1), 2) = v /\ ValOf(Digits(b, 3), 8) = v /\ ValOf(Digits(b, 4), 16) = v /\ ValOf(Dec(b), 10) = v
         /\ ValOf(Neg(b), 2) = (4096 - v) % 4096
ASSUME Number(Kn(-1, TRUE), Bits(200), 8, "dec") = "200" /\ Number(Kn(-1, TRUE), Bits(100), 8, "dec") = "'d100"
       /\ Number(Kn(-1, TRUE), Bits(255), 8, "") = "'hFF" /\ Number(Kn(-1, TRUE), Bits(10), 8, "oct") = "'o12"
Spec == Init /\ [][Next]_<<st, h>>
===============================================================================
