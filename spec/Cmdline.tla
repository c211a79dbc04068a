------------------------------- MODULE Cmdline -------------------------------
(* Settings given on the command line: what each of them does to a test run.  *)
(* Arguments and names are strings; everything is parsed here.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(s, i) == SubSeq(s, i, i)
StartsW(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
After(s, p) == SubSeq(s, Len(p) + 1, Len(s))
RECURSIVE Split(_, _)                      \* at every one-character separator
Split(s, c) ==
    IF \A i \in 1..Len(s) : Ch(s, i) # c THEN <<s>>
    ELSE LET k == CHOOSE i \in 1..Len(s) : Ch(s, i) = c /\ \A j \in 1..(i - 1) : Ch(s, j) # c
         IN <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)), c)
RECURSIVE Glob(_, _)
Glob(p, s) ==
    IF p = "" THEN s = ""
    ELSE IF Ch(p, 1) = "*" THEN \E k \in 1..(Len(s) + 1) : Glob(SubSeq(p, 2, Len(p)), SubSeq(s, k, Len(s)))
    ELSE s # "" /\ (Ch(p, 1) = "?" \/ Ch(p, 1) = Ch(s, 1)) /\ Glob(SubSeq(p, 2, Len(p)), SubSeq(s, 2, Len(s)))
Match(p, s) == Glob(p, s)
DigitOf == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
              CHOOSE n \in 0..9 : ToString(n) = c]
           @@ [a |-> 10, b |-> 11, c |-> 12, d |-> 13, e |-> 14, f |-> 15]
           @@ [A |-> 10, B |-> 11, C |-> 12, D |-> 13, E |-> 14, F |-> 15]
RECURSIVE Num(_, _)
Num(s, base) == IF s = "" THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1), base) * base + DigitOf[Ch(s, Len(s))]
IsDec(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in {"0","1","2","3","4","5","6","7","8","9"}
IntVal(s) ==
    IF Len(s) > 2 /\ SubSeq(s, 1, 2) \in {"'b", "0b"} THEN Num(After(s, "xx"), 2)
    ELSE IF Len(s) > 2 /\ SubSeq(s, 1, 2) = "'o" THEN Num(After(s, "xx"), 8)
    ELSE IF Len(s) > 2 /\ SubSeq(s, 1, 2) = "'d" THEN Num(After(s, "xx"), 10)
    ELSE IF Len(s) > 2 /\ SubSeq(s, 1, 2) \in {"'h", "'x", "0x"} THEN Num(After(s, "xx"), 16)
    ELSE IF Ch(s, 1) = "-" THEN 0 - Num(After(s, "-"), 10)
    ELSE Num(s, 10)
\* ---- the arguments ---------------------------------------------------------
RECURSIVE Vals(_, _)
Vals(args, p) == IF args = <<>> THEN <<>>
                 ELSE (IF StartsW(args[1], p) THEN <<After(args[1], p)>> ELSE <<>>) \o Vals(Tail(args), p)
RECURSIVE Sel(_, _, _)
Sel(q, T(_), i) == IF i > Len(q) THEN <<>> ELSE (IF T(q[i]) THEN <<q[i]>> ELSE <<>>) \o Sel(q, T, i + 1)
Filter(q, T(_)) == Sel(q, T, 1)
\* q: kind of the pattern, l: its literal, a, z: anchored at the start, at the end
Hits(e, s) == IF e.kind = "prefix" THEN StartsW(s, e.l)
              ELSE \E i \in 1..(Len(s) - Len(e.l) + 1) :
                     /\ SubSeq(s, i, i + Len(e.l) - 1) = e.l
                     /\ e.a = 1 => i = 1
                     /\ e.z = 1 => i = Len(s) - Len(e.l) + 1
Lower == [U |-> "u", V |-> "v", M |-> "m", u |-> "u", v |-> "v", m |-> "m"]
Low(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c
IsUvm(s) == Len(s) >= 4 /\ Ch(s, 1) \in {"+", "-"} /\ Low(Ch(s, 2)) = "u" /\ Low(Ch(s, 3)) = "v" /\ Low(Ch(s, 4)) = "m"
\* ---- verbosity, severity, action -------------------------------------------
Bare(s) == IF StartsW(s, "UVM_") THEN After(s, "UVM_") ELSE s
VerbTab == [NONE |-> 0, LOW |-> 100, MEDIUM |-> 200, HIGH |-> 300, FULL |-> 400, DEBUG |-> 500]
IsVerb(s) == Bare(s) \in DOMAIN VerbTab
Verb(s) == VerbTab[Bare(s)]
Sevs == {"UVM_INFO", "UVM_WARNING", "UVM_ERROR", "UVM_FATAL"}
Acts == {"UVM_NO_ACTION", "UVM_DISPLAY", "UVM_LOG", "UVM_COUNT", "UVM_EXIT", "UVM_CALL_HOOK", "UVM_STOP", "UVM_RM_RECORD"}
ActOk(s) == \A i \in DOMAIN Split(s, "|") : Split(s, "|")[i] \in Acts
ActSet(s) == {Split(s, "|")[i] : i \in DOMAIN Split(s, "|")} \ {"UVM_NO_ACTION"}
RootVerb(args) ==
    LET v == Vals(args, "+UVM_VERBOSITY=")
    IN IF v = <<>> THEN 200 ELSE IF IsVerb(v[1]) THEN Verb(v[1])
       ELSE IF IsDec(v[1]) /\ Num(v[1], 10) > 0 THEN Num(v[1], 10) ELSE 200
\* settings of verbosities, those which are well formed
VSplit(args) == LET v == Vals(args, "+uvm_set_verbosity=") IN [i \in DOMAIN v |-> Split(v[i], ",")]
VOk(x) == Len(x) \in {4, 5} /\ IsVerb(x[3])
VSet(args) == LET q == Filter(VSplit(args), VOk)
              IN [i \in DOMAIN q |-> [c |-> q[i][1], id |-> q[i][2], v |-> Verb(q[i][3]), ph |-> q[i][4],
                                      t |-> IF Len(q[i]) = 5 THEN Num(q[i][5], 10) ELSE 0]]
ASplit(args) == LET v == Vals(args, "+uvm_set_action=") IN [i \in DOMAIN v |-> Split(v[i], ",")]
AOk(x) == Len(x) = 4 /\ (x[3] = "_ALL_" \/ x[3] \in Sevs) /\ ActOk(x[4])
SSplit(args) == LET v == Vals(args, "+uvm_set_severity=") IN [i \in DOMAIN v |-> Split(v[i], ",")]
SOk(x) == Len(x) = 4 /\ (x[3] = "_ALL_" \/ x[3] \in Sevs) /\ x[4] \in Sevs
InstOvr(args) == LET v == Vals(args, "+uvm_set_inst_override=") IN
                 LET s == [i \in DOMAIN v |-> Split(v[i], ",")] IN Filter(s, LAMBDA x : Len(x) = 3)
TypeOvr(args) == LET v == Vals(args, "+uvm_set_type_override=") IN
                 LET s == [i \in DOMAIN v |-> Split(v[i], ",")]
                 IN Filter(s, LAMBDA x : Len(x) = 2 \/ (Len(x) = 3 /\ x[3] \in {"0", "1"}))
CfgOf(args, p) == LET v == Vals(args, p) IN
                  LET s == [i \in DOMAIN v |-> Split(v[i], ",")] IN Filter(s, LAMBDA x : Len(x) = 3)
Ints(q) == [i \in DOMAIN q |-> <<q[i][1], q[i][2], ToString(IntVal(q[i][3]))>>]
Count(q, T(_)) == Cardinality({i \in DOMAIN q : T(q[i])})
\* the settings, parsed
Parse(args) ==
    LET vs == VSplit(args)  as == ASplit(args)  ss == SSplit(args)
        io == InstOvr(args)  to == TypeOvr(args)
        ci == CfgOf(args, "+uvm_set_config_int=")  cs == CfgOf(args, "+uvm_set_config_string=")
    IN [rv |-> RootVerb(args), v |-> VSet(args), a |-> Filter(as, AOk), s |-> Filter(ss, SOk),
        io |-> io, to |-> to, ci |-> Ints(ci), cs |-> cs,
        badv |-> Count(vs, LAMBDA x : Len(x) \notin {4, 5}),
        badw |-> Count(vs, LAMBDA x : Len(x) \in {4, 5} /\ ~IsVerb(x[3])),
        bada |-> Count(as, LAMBDA x : ~AOk(x)) + Count(ss, LAMBDA x : ~SOk(x)),
        badp |-> Len(Vals(args, "+uvm_set_inst_override=")) - Len(io) + Len(Vals(args, "+uvm_set_type_override=")) - Len(to)
                 + Len(Vals(args, "+uvm_set_config_int=")) - Len(ci) + Len(Vals(args, "+uvm_set_config_string=")) - Len(cs)]
\* applying a setting of verbosity to a component record
ApplyV(c, s) == IF s.id = "_ALL_" THEN [c EXCEPT !.lvl = s.v] ELSE [c EXCEPT !.idv = (s.id :> s.v) @@ @]
RECURSIVE FoldV(_, _)
FoldV(c, q) == IF q = <<>> THEN c ELSE FoldV(ApplyV(c, q[1]), Tail(q))
ApplyA(c, x) ==
    LET a == ActSet(x[4])
        sv == IF x[3] = "_ALL_" THEN Sevs ELSE {x[3]}
    IN IF x[2] = "_ALL_" THEN [c EXCEPT !.sa = [s \in sv |-> a] @@ @]
       ELSE IF x[3] = "_ALL_" THEN [c EXCEPT !.ia = (x[2] :> a) @@ @]
       ELSE [c EXCEPT !.sia = (<<x[3], x[2]>> :> a) @@ @]
RECURSIVE FoldA(_, _)
FoldA(c, q) == IF q = <<>> THEN c ELSE FoldA(IF Match(q[1][1], c.n) THEN ApplyA(c, q[1]) ELSE c, Tail(q))
ApplyS(c, x) ==
    LET sv == IF x[3] = "_ALL_" THEN Sevs ELSE {x[3]}
    IN IF x[2] = "_ALL_" THEN [c EXCEPT !.so = [s \in sv |-> x[4]] @@ @]
       ELSE [c EXCEPT !.sio = [k \in {<<s, x[2]>> : s \in sv} |-> x[4]] @@ @]
RECURSIVE FoldS(_, _)
FoldS(c, q) == IF q = <<>> THEN c ELSE FoldS(IF Match(q[1][1], c.n) THEN ApplyS(c, q[1]) ELSE c, Tail(q))
Defaults == [UVM_INFO |-> {"UVM_DISPLAY"}, UVM_WARNING |-> {"UVM_DISPLAY"},
             UVM_ERROR |-> {"UVM_DISPLAY", "UVM_COUNT"}, UVM_FATAL |-> {"UVM_DISPLAY", "UVM_EXIT"}]
None == [x \in {} |-> 0]
\* a component when it has been constructed below a parent whose verbosity level is l
NewComp(q, n, l) ==
    LET bare == [n |-> n, lvl |-> l, idv |-> None, sa |-> Defaults, ia |-> None, sia |-> None, so |-> None, sio |-> None]
        Now(s) == Match(s.c, n) /\ s.ph \in {"", "build", "time"} /\ s.t = 0
    IN FoldS(FoldA(FoldV(bare, Filter(q.v, Now)), q.a), q.s)
\* what becomes of a message: "none" or its severity and actions
Level(c, id) == IF id \in DOMAIN c.idv THEN c.idv[id] ELSE c.lvl
HasId(c, id) == \E k \in DOMAIN c.sio : k[2] = id
NewSev(c, id, sv) == IF HasId(c, id) THEN (IF <<sv, id>> \in DOMAIN c.sio THEN c.sio[<<sv, id>>] ELSE sv)
                     ELSE IF sv \in DOMAIN c.so THEN c.so[sv] ELSE sv
Action(c, id, sv) == IF <<sv, id>> \in DOMAIN c.sia THEN c.sia[<<sv, id>>]
                     ELSE IF id \in DOMAIN c.ia THEN c.ia[id] ELSE c.sa[sv]
\* ---- factory ----------------------------------------------------------------
RECURSIVE TypeFor(_, _, _)                 \* the type override in force for a type: "" if none
TypeFor(q, t, cur) == IF q = <<>> THEN cur
    ELSE TypeFor(Tail(q), t, IF q[1][1] # t THEN cur
                             ELSE IF cur # "" /\ Len(q[1]) = 3 /\ q[1][3] = "0" THEN cur ELSE q[1][2])
RECURSIVE Resolve(_, _, _)
Resolve(q, t, path) ==
    LET h == Filter(q.io, LAMBDA x : x[1] = t /\ Match(x[3], path))
        o == TypeFor(q.to, t, "")
    IN IF h # <<>> THEN Resolve(q, h[1][2], path) ELSE IF o # "" THEN Resolve(q, o, path) ELSE t
\* ---- configuration ------------------------------------------------------------
\* the value of a field: the setting on the command line processed last, strings after integers
CfgVal(q, c, f) ==
    LET On(x) == x[2] = f /\ Match(x[1], c)
        i == Filter(q.ci, On)
        s == Filter(q.cs, On)
    IN IF s # <<>> THEN "s:" \o s[Len(s)][3]
       ELSE IF i # <<>> THEN "i:" \o i[Len(i)][3] ELSE "none"
\* ---- limits --------------------------------------------------------------------
First(args, p) == Split(Vals(args, p)[1], ",")
Given(args, p) == Vals(args, p) # <<>>
Limit(args, p, d) == IF Given(args, p) THEN Num(First(args, p)[1], 10) ELSE d
Ovr(args, p) == ~(Given(args, p) /\ Len(First(args, p)) > 1 /\ First(args, p)[2] = "NO")
\* ---- warnings -------------------------------------------------------------------
\* settings of actions and severities which matched no component
Unused(q, comps) ==
    LET No(x) == ~\E c \in comps \cup {""} : Match(x[1], c)
    IN Count(q.a, No) + Count(q.s, No)
Multi(args, p) == IF Len(Vals(args, p)) > 1 THEN 1 ELSE 0
\* the numbers of warnings and errors about the arguments, by id
Warns(args, q, comps) ==
    [INVLCMDARGS |-> q.badv + q.bada + Unused(q, comps), INVLCMDVERB |-> q.badw, UVM_CMDLINE_PROC |-> q.badp,
     MULTTST |-> Multi(args, "+UVM_TESTNAME="), MULTTIMOUT |-> Multi(args, "+UVM_TIMEOUT="),
     MULTMAXQUIT |-> Multi(args, "+UVM_MAX_QUIT_COUNT=")]
\* ---- the run ----------------------------------------------------------------------
Init1(args, q, test, deft) ==
    [args |-> args, q |-> q, test |-> test, comps |-> None, ph |-> "", now |-> 0,
     to |-> Limit(args, "+UVM_TIMEOUT=", deft), too |-> Ovr(args, "+UVM_TIMEOUT="),
     mq |-> Limit(args, "+UVM_MAX_QUIT_COUNT=", 0), mqo |-> Ovr(args, "+UVM_MAX_QUIT_COUNT=")]
Init0(cfg) == Init1(cfg.args, Parse(cfg.args), cfg.test, cfg.deft)
TestType(st) == IF Given(st.args, "+UVM_TESTNAME=") THEN Vals(st.args, "+UVM_TESTNAME=")[1] ELSE st.test
ParentLvl(st, p) == IF p = "" THEN st.q.rv ELSE st.comps[p].lvl
InPhase(st, p) == [c \in DOMAIN st.comps |->
                     FoldV(st.comps[c], Filter(st.q.v, LAMBDA s : s.ph = p /\ p # "build" /\ Match(s.c, c)))]
\* the settings due after time a and not after time b, in the order of their times
Due(v, a, b) == LET q == Filter(v, LAMBDA s : s.ph = "time" /\ a < s.t /\ s.t <= b)
                   IN SortSeq([i \in DOMAIN q |-> [s |-> q[i], i |-> i]],
                              LAMBDA x, y : x.s.t < y.s.t \/ (x.s.t = y.s.t /\ x.i < y.i))
AtTime(st, t) == LET d == Due(st.q.v, st.now, t)
                     q == [i \in DOMAIN d |-> d[i].s]
                 IN [c \in DOMAIN st.comps |-> FoldV(st.comps[c], Filter(q, LAMBDA s : Match(s.c, c)))]
Step(st, e) ==
    CASE e.op = "new" -> [st EXCEPT !.comps = (e.c :> NewComp(st.q, e.c, ParentLvl(st, e.p))) @@ @]
      [] e.op = "phase" -> [st EXCEPT !.comps = InPhase(st, e.ph), !.ph = e.ph]
      [] e.op = "time" -> [st EXCEPT !.comps = AtTime(st, e.t), !.now = e.t]
      [] e.op = "settimeout" -> IF st.too THEN [st EXCEPT !.to = e.v, !.too = (e.o = 1)] ELSE st
      [] e.op = "setquit" -> IF st.mqo THEN [st EXCEPT !.mq = e.v, !.mqo = (e.o = 1)] ELSE st
      [] OTHER -> st
Msg(st, e) == LET c == st.comps[e.c] IN
              IF Level(c, e.id) < e.v THEN [sev |-> "none", act |-> {}]
              ELSE [sev |-> NewSev(c, e.id, e.sev), act |-> Action(c, e.id, NewSev(c, e.id, e.sev))]
SetOf(q) == {q[i] : i \in DOMAIN q}
Exp(st, e) ==
    CASE e.op = "matches" -> [r |-> Filter(st.args, LAMBDA s : Hits(e, s))]
      [] e.op = "values" -> [r |-> Vals(st.args, e.l)]
      [] e.op = "value" -> [n |-> Len(Vals(st.args, e.l)), r |-> IF Given(st.args, e.l) THEN <<Vals(st.args, e.l)[1]>> ELSE <<>>]
      [] e.op = "plus" -> [r |-> Filter(st.args, LAMBDA s : Ch(s, 1) = "+")]
      [] e.op = "uvm" -> [r |-> Filter(st.args, IsUvm)]
      [] e.op = "args" -> [r |-> st.args]
      [] e.op = "new" -> [r |-> IF e.p = "" THEN TestType(st) ELSE Resolve(st.q, e.ty, e.c)]
      [] e.op = "msg" -> Msg(st, e)
      [] e.op = "cfgget" -> [r |-> CfgVal(st.q, e.c, e.f)]
      [] e.op \in {"settimeout", "timeout"} -> [r |-> Step(st, e).to]
      [] e.op \in {"setquit", "quit"} -> [r |-> Step(st, e).mq]
      [] e.op = "warns" -> [r |-> Warns(st.args, st.q, DOMAIN st.comps)]
      [] e.op = "traces" -> [o |-> IF Given(st.args, "+UVM_OBJECTION_TRACE") THEN 1 ELSE 0,
                             p |-> IF Given(st.args, "+UVM_PHASE_TRACE") /\ st.q.rv >= 100 THEN 1 ELSE 0,
                             d |-> IF Given(st.args, "+UVM_DUMP_CMDLINE_ARGS") THEN 1 ELSE 0]
      [] OTHER -> [ok |-> 1]
Bad(st, e) ==
    CASE e.op \in {"crash", "hang"} -> e.op
      [] e.op \in {"matches", "values", "plus", "uvm", "args"} -> IF e.r = Exp(st, e).r THEN "" ELSE IF "strict" \in DOMAIN e THEN "regex-strict" ELSE "query-" \o e.op
      [] e.op = "value" -> IF e.r = Exp(st, e).r /\ e.n = Exp(st, e).n THEN "" ELSE "query-value"
      [] e.op = "new" -> IF e.r = Exp(st, e).r THEN "" ELSE IF e.p = "" THEN "test-name" ELSE "override"
      [] e.op = "msg" -> IF e.r = Msg(st, e).sev /\ SetOf(e.act) = Msg(st, e).act THEN ""
                         ELSE IF (e.r = "none") # (Msg(st, e).sev = "none") THEN "verbosity"
                         ELSE IF e.r # Msg(st, e).sev THEN "severity" ELSE "action"
      [] e.op = "cfgget" -> IF e.r = Exp(st, e).r THEN "" ELSE "config"
      [] e.op \in {"settimeout", "timeout"} -> IF e.r = Exp(st, e).r THEN "" ELSE "timeout"
      [] e.op \in {"setquit", "quit"} -> IF e.r = Exp(st, e).r THEN "" ELSE "quit-count"
      [] e.op = "warns" -> IF e.r = Exp(st, e).r THEN "" ELSE "warnings"
      [] e.op = "traces" -> IF e.o = Exp(st, e).o /\ e.p = Exp(st, e).p /\ e.d = Exp(st, e).d THEN "" ELSE "traces"
      [] OTHER -> ""
=============================================================================
