------------------------------- MODULE Printer -------------------------------
(***************************************************************************)
(* Printing objects.  The state is the heap: objects 1..n, each with       *)
(*   t type name, n name, full full name, id instance id, comp whether it  *)
(*   is a component, kids its children (in order), en whether a component  *)
(*   is printed, f its registered fields (n name, k kind, v value, rad     *)
(*   radix, p printed at all, ref by reference only), items what its       *)
(*   do_print() asks the printer to print (arrays hold items themselves)   *)
(* heap objs          the objects change                                   *)
(* print o kn how rows closed cols  object o is printed with knobs kn by a *)
(*                    printer of kind how (table, tree, line); rows is     *)
(*                    what can be read in the text, closed whether all     *)
(*                    brackets in it are closed in the right places, cols  *)
(*                    where the cells of a table begin                     *)
(* Values of integers are bits, least significant first, with the sign     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0(cfg) == [objs |-> <<>>]
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Cat(_), Join(_), DecOf(_, _, _), Digits(_, _), Strip(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Join(Tail(ss))
\* -- numbers
Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Strip(d) == IF Len(d) > 1 /\ d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d
Str(d) == LET n == Len(d) IN Join([i \in 1..n |-> Dig[d[n + 1 - i] + 1]])
Bit(b, i) == IF i \in DOMAIN b THEN b[i] ELSE 0
Digits(b, w) == [i \in 1..((Len(b) + w - 1) \div w) |->
                   LET o == (i - 1) * w IN Bit(b, o + 1) + (IF w > 1 THEN 2 * Bit(b, o + 2) ELSE 0)
                       + (IF w > 2 THEN 4 * Bit(b, o + 3) ELSE 0) + (IF w > 3 THEN 8 * Bit(b, o + 4) ELSE 0)]
\* d := 2 d + c in decimal
RECURSIVE Dbl(_, _)
Dbl(d, c) == IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
             ELSE LET x == 2 * d[1] + c IN <<x % 10>> \o Dbl(Tail(d), x \div 10)
DecOf(b, i, d) == IF i = 0 THEN d ELSE DecOf(b, i - 1, Dbl(d, b[i]))
Dec(b) == LET d == DecOf(b, Len(b), <<>>) IN IF d = <<>> THEN <<0>> ELSE d
\* two's complement of b
RECURSIVE Inc(_, _)
Inc(b, i) == IF i > Len(b) THEN b ELSE IF b[i] = 1 THEN Inc([b EXCEPT ![i] = 0], i + 1) ELSE [b EXCEPT ![i] = 1]
Neg(b) == Inc([i \in DOMAIN b |-> 1 - b[i]], 1)
Number(kn, v, size, radix) ==
  LET b == SubSeq(v.b, 1, size)
      r == IF radix = "" THEN kn.defrad ELSE radix
      pre == IF kn.radix THEN kn.radstr[r] ELSE "" IN
  CASE r = "dec" /\ b[size] = 1 -> (IF v.neg THEN "-" \o Str(Strip(Dec(Neg(b)))) ELSE Str(Strip(Dec(b))))
    [] r = "bin" -> pre \o Str(Strip(Digits(b, 1)))
    [] r = "oct" -> pre \o Str(Strip(Digits(b, 3)))
    [] r = "hex" -> pre \o Str(Strip(Digits(b, 4)))
    [] OTHER -> pre \o Str(Strip(Dec(b)))
Quoted(s) == IF s = "" THEN "\"\"" ELSE s
\* -- rows
RECURSIVE Path(_)
Path(sc) == IF Len(sc) = 1 THEN sc[1]
            ELSE Path(SubSeq(sc, 1, Len(sc) - 1)) \o (IF SubSeq(sc[Len(sc)], 1, 1) = "[" THEN "" ELSE ".") \o sc[Len(sc)]
NameOf(kn, sc, n) == IF kn.full /\ sc # <<>> /\ Path(sc) # "" THEN Path(sc) \o "." \o n ELSE n
Row(kn, sc, n, t, s, v, ref) == [l |-> Len(sc), n |-> NameOf(kn, sc, n), t |-> t, s |-> s, v |-> v, ref |-> ref]
RefVal(kn, x) == IF ~kn.ref THEN "-" ELSE x
RECURSIVE ObjRows(_, _, _, _, _, _), ItemRows(_, _, _, _, _)
Header(st, kn, sc, n, o) ==
  IF o = 0 THEN Row(kn, sc, n, "object", "-", RefVal(kn, "<null>"), FALSE)
  ELSE LET x == st.objs[o]
           m == IF n # "" THEN n ELSE IF x.n # "" THEN x.n ELSE "<unnamed>"
           r == Row(kn, sc, m, x.t, "-", RefVal(kn, x.id), kn.ref) IN
       IF sc = <<>> /\ kn.root THEN [r EXCEPT !.n = x.full] ELSE r
FieldItem(f) == CASE f.k = "int" -> [k |-> "int", n |-> f.n, v |-> f.v, size |-> 32, rad |-> f.rad, t |-> ""]
                  [] f.k = "str" -> [k |-> "str", n |-> f.n, v |-> f.v]
                  [] f.k = "obj" -> [k |-> IF f.ref THEN "hdr" ELSE "obj", n |-> f.n, o |-> f.v]
\* an object in progress further out (act) is not printed again inside itself
ObjRows(st, kn, sc, n, o, act) ==
  <<Header(st, kn, sc, n, o)>> \o
  IF o = 0 \/ o \in act \/ (kn.depth # -1 /\ kn.depth <= Len(sc)) THEN <<>>
  ELSE LET x == st.objs[o]
           in == Append(sc, IF n = "" THEN x.n ELSE n)
           act2 == act \cup {o}
           kids == SelectSeq(x.kids, LAMBDA c : st.objs[c].en)
           flds == SelectSeq(x.f, LAMBDA f : f.p /\ f.k # "none") IN
       Cat([i \in DOMAIN kids |-> ObjRows(st, kn, in, "", kids[i], act2)])
       \o Cat([i \in DOMAIN flds |-> ItemRows(st, kn, in, FieldItem(flds[i]), act2)])
       \o Cat([i \in DOMAIN x.items |-> ItemRows(st, kn, in, x.items[i], act2)])
ItemRows(st, kn, sc, e, act) ==
  CASE e.k = "int" -> <<Row(kn, sc, e.n, IF e.t # "" THEN e.t ELSE IF e.rad = "time" THEN "time" ELSE "integral",
                            ToString(e.size), Number(kn, e.v, e.size, e.rad), FALSE)>>
    [] e.k = "str" -> <<Row(kn, sc, e.n, "string", ToString(Len(e.v)), Quoted(e.v), FALSE)>>
    [] e.k = "real" -> <<Row(kn, sc, e.n, "real", "64", e.v, FALSE)>>
    [] e.k = "gen" -> <<Row(kn, sc, e.n, e.t, e.size, Quoted(e.v), FALSE)>>
    [] e.k = "range" -> IF e.none THEN <<>> ELSE <<[Row(kn, sc, "...", "...", "...", "...", FALSE) EXCEPT !.n = "..."]>>
    [] e.k = "arr" -> <<Row(kn, sc, e.n, e.t, ToString(e.size), "-", FALSE)>>
                      \o Cat([i \in DOMAIN e.items |-> ItemRows(st, kn, Append(sc, e.n), e.items[i], act)])
    [] e.k = "obj" -> ObjRows(st, kn, sc, e.n, e.o, act)
    [] e.k = "hdr" -> <<Header(st, kn, sc, e.n, e.o)>>
Rows(st, kn, o) == ObjRows(st, kn, <<>>, st.objs[o].n, o, {})
\* -- what can be read in the text
Table(kn, rs) == [i \in DOMAIN rs |-> [l |-> IF kn.ident THEN rs[i].l ELSE -1, n |-> IF kn.ident THEN rs[i].n ELSE "",
                                       t |-> IF kn.type THEN rs[i].t ELSE "", s |-> IF kn.size THEN rs[i].s ELSE "", v |-> rs[i].v]]
Tree(kn, rs) == [i \in DOMAIN rs |->
  LET r == rs[i]
      open == i < Len(rs) /\ rs[i + 1].l > r.l IN
  [l |-> r.l, n |-> IF kn.ident THEN r.n ELSE "", t |-> IF r.ref THEN r.t \o r.v ELSE IF kn.type THEN r.t ELSE "",
   s |-> IF kn.size THEN r.s ELSE "", v |-> IF open THEN "{" ELSE r.v]]
Expected(st, e) == LET rs == Rows(st, e.kn, e.o) IN IF e.how = "table" THEN Table(e.kn, rs) ELSE Tree(e.kn, rs)
Bad(st, e) ==
  CASE e.op \in {"crash", "hang"} -> e.op
    [] e.op = "print" -> LET x == Expected(st, e) IN
         IF Len(e.rows) < Len(x) /\ \A i \in DOMAIN e.rows : \E j \in DOMAIN x : e.rows[i].n = x[j].n THEN "rows.missing"
         ELSE IF Len(e.rows) # Len(x) THEN "rows.number"
         ELSE LET D == {i \in DOMAIN x : e.rows[i] # x[i]} IN
         IF D # {} THEN LET i == CHOOSE i \in D : \A j \in D : i <= j IN
              IF e.rows[i].n # x[i].n THEN "row.name" ELSE IF e.rows[i].l # x[i].l THEN "row.level"
              ELSE IF e.rows[i].v # x[i].v THEN "row.value" ELSE IF e.rows[i].t # x[i].t THEN "row.type" ELSE "row.size"
         ELSE IF ~e.closed THEN "text.brackets"
         ELSE IF Cardinality(Range(e.cols)) > 1 THEN "text.columns"
         ELSE ""
    [] OTHER -> ""
Step(st, e) == IF e.op = "heap" THEN [st EXCEPT !.objs = e.objs] ELSE st
Exp(st, e) == IF e.op = "print" THEN Expected(st, e) ELSE ""
=============================================================================
