------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The reporting system: report handlers of components, the report server  *)
(* and report catchers.  Severities 0..3 (info .. fatal); actions are bit  *)
(* sets DISPLAY 1, LOG 2, COUNT 4, EXIT 8; component 1 is the root.        *)
(*   set c hier what sev id v     (what: a table of the handler)           *)
(*   reset c                                                               *)
(*   add c k pre | mode k on      (catcher k for component c, 0: all)      *)
(*   rule k ...                   (what catcher k does)                    *)
(*   max n ovr | setq n | sets sev n | setid id n | clear                  *)
(*   msg c sev id msg verb dv : seen outs died                             *)
(*   tab c sev id : verb act file                                          *)
(*   cnt : all counters                                                    *)
(* seen: what each catcher saw; outs: what was written where (0: logger).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [x \in {} |-> 0]
Fresh == [mv |-> 200, vid |-> None, vsid |-> None,
          asev |-> [s \in 0 .. 3 |-> <<1, 1, 5, 9>>[s + 1]], aid |-> None, asid |-> None,
          fdef |-> 0, fsev |-> [s \in 0 .. 3 |-> 0], fid |-> None, fsid |-> None,
          osev |-> None, osid |-> None]
\* tables are functions on strings: the severity is part of the key
Key(sev, id) == ToString(sev) \o ":" \o id
Init0(cfg) == [par |-> cfg.par, name |-> cfg.name, h |-> [c \in DOMAIN cfg.par |-> Fresh],
               sev |-> [s \in 0 .. 3 |-> cfg.base[s + 1]], ids |-> cfg.ids, quit |-> cfg.quit, max |-> cfg.max, ovr |-> TRUE,
               all |-> <<>>, own |-> [c \in DOMAIN cfg.par |-> <<>>], has |-> {}, off |-> {}, rule |-> cfg.rules,
               caught |-> [s \in 1 .. 3 |-> 0], dem |-> [s \in 1 .. 3 |-> 0], died |-> FALSE]
RECURSIVE Under(_, _, _)
Under(st, c, d) == c = d \/ (st.par[c] # 0 /\ Under(st, st.par[c], d))

\* ---- the tables -----------------------------------------------------------
Put(f, k, v) == (k :> v) @@ f
Has(f, k) == k \in DOMAIN f
SetTab(t, what, sev, id, v) ==
  CASE what = "verb" -> [t EXCEPT !.mv = v]
    [] what = "idverb" -> [t EXCEPT !.vid = Put(@, id, v)]
    [] what = "sevidverb" -> [t EXCEPT !.vsid = Put(@, Key(sev, id), v)]
    [] what = "sevact" -> [t EXCEPT !.asev[sev] = v]
    [] what = "idact" -> [t EXCEPT !.aid = Put(@, id, v)]
    [] what = "sevidact" -> [t EXCEPT !.asid = Put(@, Key(sev, id), v)]
    [] what = "file" -> [t EXCEPT !.fdef = v]
    [] what = "sevfile" -> [t EXCEPT !.fsev[sev] = v]
    [] what = "idfile" -> [t EXCEPT !.fid = Put(@, id, v)]
    [] what = "sevidfile" -> [t EXCEPT !.fsid = Put(@, Key(sev, id), v)]
    [] what = "sevovr" -> [t EXCEPT !.osev = Put(@, ToString(sev), v)]
    [] what = "sevidovr" -> [t EXCEPT !.osid = Put(@, Key(sev, id), v)]
Verb(t, sev, id) == IF Has(t.vsid, Key(sev, id)) THEN t.vsid[Key(sev, id)] ELSE IF Has(t.vid, id) THEN t.vid[id] ELSE t.mv
Action(t, sev, id) == IF Has(t.asid, Key(sev, id)) THEN t.asid[Key(sev, id)] ELSE IF Has(t.aid, id) THEN t.aid[id] ELSE t.asev[sev]
SevAction(t, sev) == t.asev[sev]
\* the most specific file that was set (0 means not set)
File(t, sev, id) ==
  LET s == << IF Has(t.fsid, Key(sev, id)) THEN t.fsid[Key(sev, id)] ELSE 0,
              IF Has(t.fid, id) THEN t.fid[id] ELSE 0, t.fsev[sev], t.fdef >>
      nz == {i \in 1 .. 4 : s[i] # 0}
  IN IF nz = {} THEN 0 ELSE s[CHOOSE i \in nz : \A j \in nz : i <= j]
\* overrides given for the id replace those given for the severity
Override(t, sev, id) ==
  IF \E s \in 0 .. 3 : Has(t.osid, Key(s, id)) THEN IF Has(t.osid, Key(sev, id)) THEN t.osid[Key(sev, id)] ELSE sev
  ELSE IF Has(t.osev, ToString(sev)) THEN t.osev[ToString(sev)] ELSE sev

\* ---- one message ----------------------------------------------------------
Bit(a, b) == (a \div b) % 2 = 1
Out(st, to, m) == [to |-> to, sev |-> m.sev, id |-> m.id, msg |-> m.msg, comp |-> st.name[m.c]]
\* r: [st, seen, outs]
Exec(r, m) ==
  IF r.st.died THEN r
  ELSE LET st == r.st
           q == st.quit + (IF Bit(m.act, 4) /\ st.max # 0 THEN 1 ELSE 0)
           ex == Bit(m.act, 8) \/ (Bit(m.act, 4) /\ st.max # 0 /\ q >= st.max)
       IN [r EXCEPT !.st.sev[m.sev] = @ + 1,
                    !.st.ids = Put(@, m.id, (IF Has(@, m.id) THEN @[m.id] ELSE 0) + 1),
                    !.st.quit = q, !.st.died = ex,
                    !.outs = @ \o (IF Bit(m.act, 1) THEN <<Out(st, 0, m)>> ELSE <<>>)
                               \o (IF Bit(m.act, 2) THEN <<Out(st, m.file, m)>> ELSE <<>>)]
\* a message a catcher issues itself: no catchers, no overrides; enabled by the root's verbosity
Extra(r, c, sev, id, msg, verb) ==
  LET st == r.st  t == st.h[c]  a == Action(t, sev, id) IN
  IF Verb(st.h[1], sev, id) < verb \/ a = 0 THEN r
  ELSE Exec(r, [c |-> c, sev |-> sev, id |-> id, msg |-> msg, act |-> a, file |-> File(t, sev, id)])
Q(st, c) == SelectSeq(IF c \in st.has THEN st.own[c] ELSE st.all, LAMBDA k : k \notin st.off /\ st.rule[k].kind = "catcher")
Applies(x, m) == (x.sev = -1 \/ x.sev = m.sev) /\ (x.id = "" \/ x.id = m.id)
Or(v, d) == IF v = -1 THEN d ELSE v
OrS(v, d) == IF v = "" THEN d ELSE v
\* the catchers q see message m: [r, m, caught]
RECURSIVE Catch(_, _, _)
Catch(r, q, m) ==
  IF q = <<>> \/ r.st.died THEN [r |-> r, m |-> m, caught |-> FALSE]
  ELSE
    LET x == r.st.rule[q[1]]
        r1 == [r EXCEPT !.seen = Append(@, [k |-> q[1], sev |-> m.sev, id |-> m.id, msg |-> m.msg, act |-> m.act, verb |-> m.verb])]
    IN IF ~Applies(x, m) THEN Catch(r1, Tail(q), m)
       ELSE
         LET m1 == [m EXCEPT !.sev = Or(x.nsev, @), !.id = OrS(x.nid, @), !.msg = OrS(x.nmsg, @), !.verb = Or(x.nverb, @),
                             !.act = Or(x.nact, @)]
             r2 == IF x.extra = -1 THEN r1 ELSE Extra(r1, m.c, x.extra, "EXTRA", "extra", x.everb)
             r3 == IF x.issue /\ m1.act # 0 THEN Exec(r2, m1) ELSE r2
             r4 == IF x.ret = 0 THEN Extra(r3, m.c, 2, "RPTCTHR", "bad-return", 0) ELSE r3
             t == r.st.h[m.c]
             m2 == IF x.nact = -1 /\ m1.sev # m.sev /\ m1.act = SevAction(t, m.sev)
                   THEN [m1 EXCEPT !.act = SevAction(t, m1.sev)] ELSE m1
         IN IF x.ret = 2 THEN [r |-> r4, m |-> m2, caught |-> ~r4.st.died]
            ELSE Catch(r4, Tail(q), m2)
Message(st0, m0) ==
  LET t == st0.h[m0.c]
      r0 == [st |-> st0, seen |-> <<>>, outs |-> <<>>]
  IN IF m0.verb > Verb(t, m0.sev, m0.id) THEN r0
     ELSE LET sev == Override(t, m0.sev, m0.id)
              m == [c |-> m0.c, sev |-> sev, id |-> m0.id, msg |-> m0.msg, verb |-> m0.verb,
                    act |-> Action(t, sev, m0.id), file |-> File(t, sev, m0.id)]
              x == Catch(r0, Q(st0, m0.c), m)
              r1 == IF x.r.st.died THEN x.r
                    ELSE [x.r EXCEPT !.st.caught = IF x.caught /\ sev > 0 THEN [@ EXCEPT ![sev] = @ + 1] ELSE @,
                                     !.st.dem = IF sev > 0 /\ x.m.sev < sev THEN [@ EXCEPT ![sev] = @ + 1] ELSE @]
          IN IF x.caught \/ x.m.act = 0 THEN r1 ELSE Exec(r1, x.m)

NoMax(st) == [c |-> 1, sev |-> 0, id |-> "NOMAXQUITOVR", verb |-> 0, msg |-> "nomaxquitovr"]
Result(st, e) == IF e.op = "msg" THEN Message(st, e)
                 ELSE IF e.op = "max" /\ ~st.ovr THEN Message(st, NoMax(st))
                 ELSE [st |-> st, seen |-> <<>>, outs |-> <<>>]
IdCount(st, e, i) == IF Has(st.ids, e.ids[i].id) THEN st.ids[e.ids[i].id] ELSE 0
\* every component but the root is told once, children before their parents
Aborted(st, a) == /\ Len(a) = Cardinality(DOMAIN st.par) - 1
                  /\ {a[i] : i \in DOMAIN a} = DOMAIN st.par \ {1}
                  /\ \A i, j \in DOMAIN a : st.par[a[i]] = a[j] => i < j
Judge(st, e) == \* a message
  LET r == Result(st, e) IN
  IF e.seen # r.seen THEN
     (IF [i \in DOMAIN e.seen |-> e.seen[i].k] # [i \in DOMAIN r.seen |-> r.seen[i].k] THEN "catcher.order" ELSE "catcher.modification")
  ELSE IF e.outs # r.outs THEN
     (IF Len(e.outs) < Len(r.outs) THEN "issue.missing" ELSE IF Len(e.outs) > Len(r.outs) THEN "issue.extra" ELSE "issue.content")
  ELSE IF e.died # r.st.died THEN "quit.exit"
  ELSE IF e.died /\ ~Aborted(st, e.abort) THEN "quit.pre_abort" ELSE ""

Bad(st, e) ==
  CASE e.op \in {"crash", "hang"} -> e.op
    [] e.op \in {"msg", "max"} -> Judge(st, e)
    [] e.op = "tab" -> LET t == st.h[e.c] IN
         IF e.verb # Verb(t, e.sev, e.id) THEN "table.verbosity"
         ELSE IF e.act # Action(t, e.sev, e.id) THEN "table.action"
         ELSE IF e.file # File(t, e.sev, e.id) THEN "table.file" ELSE ""
    [] e.op = "cnt" ->
         IF e.sev # [i \in 1 .. 4 |-> st.sev[i - 1]] THEN "count.severity"
         ELSE IF \E i \in DOMAIN e.ids : e.ids[i].n # IdCount(st, e, i) THEN "count.id"
         ELSE IF e.quit # st.quit \/ e.max # st.max THEN "count.quit"
         ELSE IF e.reached # (st.quit >= st.max) THEN "count.reached"
         ELSE IF e.caught # st.caught \/ e.dem # st.dem THEN "catcher.statistics"
         ELSE IF e.ssev # e.sev THEN "summary.severity"
         ELSE IF {<<e.sids[i].id, e.sids[i].n>> : i \in DOMAIN e.sids} # {<<k, st.ids[k]>> : k \in DOMAIN st.ids} THEN "summary.id"
         ELSE IF {e.idset[i] : i \in DOMAIN e.idset} # DOMAIN st.ids \/ Len(e.idset) # Cardinality(DOMAIN st.ids) THEN "count.idset" ELSE ""
    [] OTHER -> ""
PutQ(s, k, pre) == IF \E i \in DOMAIN s : s[i] = k THEN s ELSE IF pre THEN <<k>> \o s ELSE Append(s, k)
Pos(n) == IF n < 0 THEN 0 ELSE n
Step(st, e) ==
  CASE e.op = "set" -> [st EXCEPT !.h = [c \in DOMAIN @ |-> IF c = e.c \/ (e.hier /\ Under(st, c, e.c))
                                                            THEN SetTab(@[c], e.what, e.sev, e.id, e.v) ELSE @[c]]]
    [] e.op = "reset" -> [st EXCEPT !.h[e.c] = Fresh]
    [] e.op = "add" /\ e.c = 0 -> [st EXCEPT !.all = PutQ(@, e.k, e.pre),
                                            !.own = [c \in DOMAIN @ |-> IF c \in st.has /\ ~\E i \in DOMAIN st.all : st.all[i] = e.k
                                                                         THEN PutQ(@[c], e.k, e.pre) ELSE @[c]]]
    [] e.op = "add" -> [st EXCEPT !.own[e.c] = PutQ(IF e.c \in st.has THEN st.own[e.c] ELSE st.all, e.k, e.pre), !.has = @ \cup {e.c}]
    [] e.op = "mode" -> [st EXCEPT !.off = IF e.on THEN @ \ {e.k} ELSE @ \cup {e.k}]
    [] e.op = "max" -> IF st.ovr THEN [st EXCEPT !.max = Pos(e.n), !.ovr = e.ovr] ELSE Result(st, e).st
    [] e.op = "setq" -> [st EXCEPT !.quit = Pos(e.n)]
    [] e.op = "sets" -> [st EXCEPT !.sev[e.sev] = Pos(e.n)]
    [] e.op = "setid" -> [st EXCEPT !.ids = Put(@, e.id, Pos(e.n))]
    [] e.op = "clear" -> [st EXCEPT !.sev = [s \in 0 .. 3 |-> 0], !.quit = 0]
    [] e.op = "msg" -> Result(st, e).st
    [] OTHER -> st
Exp(st, e) ==
  CASE e.op \in {"msg", "max"} -> LET r == Result(st, e) IN ToString(<<r.seen, r.outs, r.st.died>>)
    [] e.op = "tab" -> LET t == st.h[e.c] IN ToString(<<Verb(t, e.sev, e.id), Action(t, e.sev, e.id), File(t, e.sev, e.id)>>)
    [] e.op = "cnt" -> ToString(<<st.sev, st.ids, st.quit, st.max, st.caught, st.dem>>)
    [] OTHER -> ""
=============================================================================
