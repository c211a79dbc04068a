----------------------------- MODULE Recording -----------------------------
(***************************************************************************)
(* Transactions and what is recorded of them.                              *)
(* State: streams, records (open, closed, freed), transactions with their  *)
(* three times, components with a stream table and a table of records of   *)
(* the transactions they began, and the file the database writes.          *)
(* An event is one call with everything it caused, in "log": entries       *)
(* [r: what it is about, k: rank, x: text] in the order of their effects   *)
(* (lines of the recording, callbacks, triggered events).                  *)
(* Each call has t: the time of the call.  Component 0: the transaction's  *)
(* own methods.  Streams, records, transactions, components: numbered.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in DOMAIN q}
Str(x) == ToString(x)
NT == 3
NC == 2
Init0(cfg) ==
  [s |-> <<>>, r |-> <<>>, cn |-> cfg.cn, tn |-> cfg.tn,
   t |-> [k \in 1 .. NT |-> [acc |-> -1, beg |-> -1, end |-> -1, rec |-> 0, own |-> 0, v |-> 0, sub |-> 0]],
   c |-> [i \in 1 .. NC |-> [det |-> FALSE, main |-> 0, tab |-> <<>>, ch |-> [k \in 1 .. NT |-> 0]]],
   open |-> FALSE, file |-> "f0"]

\* entries of the log: rank orders the entries about the same thing
Line(r, k, x) == [r |-> "r" \o Str(r), k |-> k, x |-> x]
Ev(w, k, x) == [r |-> w, k |-> k, x |-> x]
\* a: what has been done so far: [st, log, ret]
Add(a, e) == [a EXCEPT !.log = Append(@, e)]
Now(a, t) == IF t # 0 THEN t ELSE a.now

OpenS(a, n, sc, ty) ==
  LET i == Len(a.st.s) + 1 IN
  Add([a EXCEPT !.st.s = Append(@, [n |-> n, sc |-> sc, ty |-> ty, life |-> "open"]), !.st.open = TRUE, !.sid = i],
      Ev("s" \o Str(i), 1, "stream " \o Str(i) \o " " \o n \o " " \o ty \o " " \o sc))
FindS(a, c, n, ty) == SelectSeq(a.st.c[c].tab, LAMBDA p : p[1] = n /\ p[2] = ty)
StreamOf(a, c, n, ty) ==
  IF FindS(a, c, n, ty) # <<>> THEN [a EXCEPT !.sid = FindS(a, c, n, ty)[1][3]]
  ELSE LET b == OpenS(a, n, a.st.cn[c], ty) IN [b EXCEPT !.st.c[c].tab = Append(@, <<n, ty, b.sid>>)]
MainOf(a, c) ==
  IF a.st.c[c].main # 0 THEN [a EXCEPT !.sid = a.st.c[c].main]
  ELSE LET b == OpenS(a, "main", a.st.cn[c], "TVM") IN [b EXCEPT !.st.c[c].main = b.sid]
Which(a, c, n) == IF n = "" \/ n = "main" THEN MainOf(a, c) ELSE StreamOf(a, c, n, "")

\* records
OpenR(a, s, n, t, ty) ==
  IF s = 0 \/ a.st.s[s].life # "open" THEN [a EXCEPT !.rid = 0]
  ELSE LET i == Len(a.st.r) + 1 IN
       Add([a EXCEPT !.st.r = Append(@, [s |-> s, life |-> "open", ot |-> t, ct |-> 0]), !.rid = i, !.st.open = TRUE],
           Line(i, 1, "open " \o Str(i) \o " " \o Str(s) \o " " \o n \o " " \o ty \o " " \o Str(t)))
Attr(a, r, n, v) == IF r = 0 \/ a.st.r[r].life = "freed" THEN a
                    ELSE Add(a, Line(r, 2, "attr " \o Str(r) \o " " \o n \o " " \o v))
\* the contents of transaction k; sub: the item it refers to
Own(a, r, p, v) == Attr(Attr(a, r, p \o "v", Str(v)), r, p \o "s", "str" \o Str(v))
Contents(a, r, k) == LET u == a.st.t[k].sub   \* item u holds 1000 + u
                         b == Own(a, r, "", a.st.t[k].v) IN
                     IF u = 0 THEN Attr(b, r, "sub", "none") ELSE Own(Attr(b, r, "sub", "item" \o Str(u)), r, "sub.", 1000 + u)
CloseR(a, r, t) == IF r = 0 \/ a.st.r[r].life # "open" THEN a
                   ELSE Add([a EXCEPT !.st.r[r].life = "closed", !.st.r[r].ct = t], Line(r, 3, "close " \o Str(r) \o " " \o Str(t)))
FreeR(a, r) == IF r = 0 \/ a.st.r[r].life = "freed" THEN a
               ELSE LET b == CloseR(a, r, a.now) IN Add([b EXCEPT !.st.r[r].life = "freed"], Line(r, 4, "free " \o Str(r)))
Link(a, p, r, kind) == IF p = 0 \/ r = 0 THEN a ELSE Add(a, Line(r, 2, "link " \o Str(p) \o " " \o Str(r) \o " " \o kind))
Alive(a, r) == r # 0 /\ r <= Len(a.st.r) /\ a.st.r[r].life # "freed"
RECURSIVE FreeAll(_, _)
FreeAll(a, q) == IF q = <<>> THEN a ELSE FreeAll(FreeR(a, Head(q)), Tail(q))
RECURSIVE CloseAll(_, _)
CloseAll(a, q) == IF q = <<>> THEN a ELSE CloseAll(CloseR(a, Head(q), a.now), Tail(q))
OfS(a, s) == SelectSeq([i \in DOMAIN a.st.r |-> i], LAMBDA i : a.st.r[i].s = s /\ a.st.r[i].life # "freed")

\* callbacks and events of transactions and components
TEv(a, k, n, i) == Add(a, Ev("t" \o Str(k), i, n \o " t" \o Str(k)))
CEv(a, c, n, i, x) == Add(a, Ev("c" \o Str(c), i, n \o " c" \o Str(c) \o x))

Accept(a, k, at) == TEv(TEv([a EXCEPT !.st.t[k].acc = Now(a, at)], k, "do_accept", 1), k, "accepted", 2)
End(a, k, et, free) ==
  LET t == Now(a, et)
      b == TEv([a EXCEPT !.st.t[k].end = t], k, "do_end", 1)
      r == b.st.t[k].rec
      c == IF r = 0 \/ b.st.t[k].own = 0 THEN b
           ELSE LET x == CloseR(Contents(b, r, k), r, t) IN IF free THEN FreeR(x, r) ELSE x
  IN TEv([c EXCEPT !.st.t[k].rec = 0], k, "ended", 2)
Begin(a, k, bt, par) ==
  LET t == Now(a, bt)
      p == IF Alive(a, par) THEN par ELSE 0
      b == IF a.st.t[k].rec # 0 THEN End(a, k, t, TRUE) ELSE a
      c == [b EXCEPT !.st.t[k].beg = t, !.st.t[k].end = -1]
      d == IF c.st.t[k].own = 0 THEN [c EXCEPT !.rid = 0]
           ELSE OpenR(c, c.st.t[k].own, "Tx", t, IF p = 0 THEN "Begin_No_Parent, Link" ELSE "Begin_End, Link")
      e == Link([d EXCEPT !.st.t[k].rec = d.rid], p, d.rid, "child")
  IN [TEv(TEv(e, k, "do_begin", 3), k, "begun", 4) EXCEPT !.ret = d.rid]
CBegin(a, c, k, n, label, desc, bt, par) ==
  LET p == IF Alive(a, par) THEN par ELSE 0
      b == Begin(a, k, bt, p)
      own == b.ret
      f == IF ~b.st.c[c].det THEN [b EXCEPT !.ret = 0]
           ELSE LET s == Which(b, c, n)
                    o == OpenR(s, s.sid, s.st.tn[k], Now(a, bt), IF p = 0 THEN "Begin_No_Parent, Link" ELSE "Begin_End, Link")
                    r == o.rid
                    l == IF label = "" THEN o ELSE Attr(o, r, "label", label)
                    m == IF desc = "" THEN l ELSE Attr(l, r, "desc", desc)
                    x == IF r = 0 THEN m ELSE [Link(Link(m, p, r, "child"), r, own, "") EXCEPT !.st.c[c].ch[k] = r]
                IN CEv([x EXCEPT !.ret = r], c, "do_begin_tr", 1, " t" \o Str(k) \o " " \o n \o " " \o Str(r))
  IN CEv(f, c, "begin_tr", 2, " t" \o Str(k))
CEnd(a, c, k, et, free) ==
  LET b == End(a, k, et, free)
      r == b.st.c[c].ch[k]
      f == IF ~b.st.c[c].det THEN b
           ELSE IF r = 0 THEN CEv(b, c, "do_end_tr", 1, " t" \o Str(k) \o " 0")
           ELSE LET h == IF Alive(b, r) THEN r ELSE 0
                    x == CEv([b EXCEPT !.st.c[c].ch[k] = 0], c, "do_end_tr", 1, " t" \o Str(k) \o " " \o Str(h))
                    y == CloseR(Contents(x, r, k), r, Now(a, et))
                IN IF free THEN FreeR(y, r) ELSE y
  IN CEv(f, c, "end_tr", 2, "")
CRec(a, c, k, n, label, desc, at, keep) ==
  LET s == Which(a, c, n)
      o == OpenR(s, s.sid, label, Now(a, at), IF keep THEN "Event, Link" ELSE "Event")
      r == o.rid
      l == IF label = "" THEN o ELSE Attr(o, r, "label", label)
      m == IF desc = "" THEN l ELSE Attr(l, r, "desc", desc)
      x == IF k = 0 \/ r = 0 THEN m ELSE Contents(m, r, k)
      y == CloseR(x, r, Now(a, at))
  IN IF keep THEN [y EXCEPT !.ret = r] ELSE [FreeR(y, r) EXCEPT !.ret = 0]
FreeS(a, c, s) ==
  IF ~\E i \in DOMAIN a.st.c[c].tab : a.st.c[c].tab[i][3] = s THEN a
  ELSE LET b == [a EXCEPT !.st.c[c].tab = SelectSeq(@, LAMBDA p : p[3] # s)]
           x == Add(b, Ev("s" \o Str(s), 2, "close-stream " \o Str(s)))
           y == CloseAll(x, OfS(x, s))
           z == Add(y, Ev("s" \o Str(s), 3, "free-stream " \o Str(s)))
       IN [FreeAll(z, OfS(z, s)) EXCEPT !.st.s[s].life = "freed"]

Do(st, e) ==
  LET a == [st |-> st, log |-> <<>>, ret |-> 0, rid |-> 0, sid |-> 0, now |-> e.t] IN
  CASE e.op = "accept" -> IF e.c = 0 THEN Accept(a, e.k, e.at)
                          ELSE CEv(CEv(Accept(a, e.k, e.at), e.c, "do_accept_tr", 1, " t" \o Str(e.k)), e.c, "accept_tr", 2, "")
    [] e.op = "begin" -> IF e.c = 0 THEN Begin(a, e.k, e.at, e.par)
                         ELSE CBegin(a, e.c, e.k, e.n, e.label, e.desc, e.at, e.par)
    [] e.op = "end" -> IF e.c = 0 THEN End(a, e.k, e.at, e.free) ELSE CEnd(a, e.c, e.k, e.at, e.free)
    [] e.op = "rec" -> CRec(a, e.c, e.k, e.n, e.label, e.desc, e.at, e.keep)
    [] e.op = "stream" -> LET b == StreamOf(a, e.c, e.n, e.ty) IN [b EXCEPT !.ret = b.sid]
    [] e.op = "freestream" -> FreeS(a, e.c, e.s)
    [] e.op = "enable" -> [a EXCEPT !.st.t[e.k].own = e.s]
    [] e.op = "detail" -> [a EXCEPT !.st.c[e.c].det = e.on]
    [] e.op = "set" -> [a EXCEPT !.st.t[e.k].v = e.v, !.st.t[e.k].sub = e.sub]
    [] e.op = "link" -> LET live == Alive(a, e.a) /\ Alive(a, e.b) IN
                        IF live THEN Link(a, e.a, e.b, e.kind) ELSE a
    [] e.op = "freerec" -> FreeR(a, e.r)
    [] e.op = "close" -> [a EXCEPT !.st.open = FALSE]
    [] e.op = "fname" -> IF a.st.open THEN a ELSE [a EXCEPT !.st.file = e.f]
    [] OTHER -> a

IsRec(x) == SubSeq(x.r, 1, 1) \in {"r", "s"}
\* recording opens the database
Did(st, e) == LET d == Do(st, e) IN IF \E x \in Range(d.log) : IsRec(x) THEN [d EXCEPT !.st.open = TRUE] ELSE d
\* which entries of got and want differ
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(got, want) == Len(got) = Len(want) /\ \A x \in Range(want) : Count(got, x) = Count(want, x)
Kinds == <<"callback", "recording">>
Ordered(got) == \A i, j \in DOMAIN got : i < j /\ got[i].r = got[j].r => got[i].k <= got[j].k

ObsT(x) == <<x.acc, x.beg, x.end, IF x.end = -1 THEN 1 ELSE 0>>
Bad(st, e) ==
  IF e.op \in {"crash", "hang"} THEN e.op
  ELSE IF e.op = "cfg" THEN ""
  ELSE
  LET d == Did(st, e)
      n == d.st IN
  IF e.log # d.log /\ ~SameBag(SelectSeq(e.log, IsRec), SelectSeq(d.log, IsRec)) THEN "recorded." \o e.op
  ELSE IF e.log # d.log /\ ~SameBag(e.log, d.log) THEN "callbacks-and-events." \o e.op
  ELSE IF e.log # d.log /\ ~Ordered(e.log) THEN "order." \o e.op
  ELSE IF e.ret # d.ret THEN "handle." \o e.op
  ELSE IF \E k \in 1 .. NT : e.tr[k] # ObsT(n.t[k]) THEN "times." \o e.op
  ELSE IF \E k \in 1 .. NT : e.th[k] # (IF Alive(d, n.t[k].rec) THEN n.t[k].rec ELSE 0) THEN "get_tr_handle"
  ELSE IF \E i \in DOMAIN n.r : e.rs[i] # (IF n.r[i].life = "freed" THEN <<"freed", 0, 0>>
            ELSE <<n.r[i].life, n.r[i].ot, n.r[i].ct>>) THEN "record-state." \o e.op
  ELSE IF \E i \in DOMAIN n.s : e.ss[i] # n.s[i].life THEN "stream-state." \o e.op
  ELSE IF e.log # <<>> /\ (\E x \in Range(e.log) : IsRec(x)) /\ e.files # <<n.file>> THEN "file"
  ELSE IF e.open # n.open THEN "database-open"
  ELSE IF e.err # 0 THEN "unexpected-error" ELSE ""
Step(st, e) == IF e.op = "cfg" THEN st ELSE Did(st, e).st
Exp(st, e) == IF e.op = "cfg" THEN st ELSE LET d == Did(st, e) IN [log |-> d.log, ret |-> d.ret, st |-> d.st]
=============================================================================
