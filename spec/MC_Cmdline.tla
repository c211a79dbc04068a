------------------------------ MODULE MC_Cmdline ------------------------------
EXTENDS Cmdline, Json
CONSTANTS MaxArgs
VARIABLES args, q, h
View == args
Pool == {
  "+UVM_VERBOSITY=UVM_LOW", "+uvm_set_verbosity=uvm_test_top.e*,_ALL_,UVM_FULL,", "+uvm_set_verbosity=*.a,ID1,NONE,time,0",
  "+uvm_set_verbosity=*,_ALL_,HIGH,run", "+uvm_set_verbosity=*.a,_ALL_,UVM_NONE,time,20", "+uvm_set_verbosity=*.b,_ALL_,DEBUG,time,10",
  "+uvm_set_action=*.a,_ALL_,UVM_INFO,UVM_NO_ACTION", "+uvm_set_action=*,ID1,_ALL_,UVM_COUNT|UVM_LOG",
  "+uvm_set_severity=*.a,_ALL_,UVM_WARNING,UVM_INFO", "+uvm_set_severity=*,ID1,UVM_INFO,UVM_ERROR",
  "+uvm_set_inst_override=CTA,CTB,*.a", "+uvm_set_type_override=CTA,CTC", "+uvm_set_type_override=CTA,CTD,0",
  "+uvm_set_config_int=*.a,f,0x1F", "+uvm_set_config_string=uvm_test_top.*,f,hello", "+uvm_set_config_int=*,f,7",
  "+UVM_TIMEOUT=300,NO", "+UVM_MAX_QUIT_COUNT=3"}
Init == args = <<>> /\ q = Parse(<<>>) /\ h = <<>>
Next == \E a \in Pool : /\ Len(args) < MaxArgs /\ a \notin {args[i] : i \in DOMAIN args}
                        /\ args' = Append(args, a)
                        /\ q' = Parse(args')
                        /\ h' = [i \in DOMAIN args' |-> [do |-> "arg", op |-> "arg", a |-> args'[i]]]
Emit == PrintT("@@GEN " \o ToJson(h'))
\* -- what the settings mean, independently of the order in which they are applied
Tree == {"uvm_test_top", "uvm_test_top.env", "uvm_test_top.env.a", "uvm_test_top.env.b"}
Start == Init1(args, q, "VTest", 9200)
\* the run: all components constructed below their parents, then each phase
Built == LET s0 == Start
             s1 == Step(s0, [op |-> "new", c |-> "uvm_test_top", p |-> ""])
             s2 == Step(s1, [op |-> "new", c |-> "uvm_test_top.env", p |-> "uvm_test_top"])
             s3 == Step(s2, [op |-> "new", c |-> "uvm_test_top.env.a", p |-> "uvm_test_top.env"])
         IN Step(s3, [op |-> "new", c |-> "uvm_test_top.env.b", p |-> "uvm_test_top.env"])
Ran(b, t) == Step(Step(b, [op |-> "phase", ph |-> "run"]), [op |-> "time", t |-> t])
\* the level of a component at a time is that of the setting for it with the latest time, then the last one
LastOf(v, c, ok(_)) == LET I == {i \in DOMAIN v : Match(v[i].c, c) /\ v[i].id = "_ALL_" /\ ok(v[i])} IN
                       IF I = {} THEN -1 ELSE v[CHOOSE i \in I : \A j \in I : v[j].t < v[i].t \/ (v[j].t = v[i].t /\ j <= i)].v
LatestWins == LET b == Built IN \A t \in {10, 20, 30} : LET rt == Ran(b, t) IN \A c \in Tree :
                LET timed == LastOf(q.v, c, LAMBDA s : s.ph = "time" /\ 0 < s.t /\ s.t <= t)
                    run == LastOf(q.v, c, LAMBDA s : s.ph = "run")
                IN rt.comps[c].lvl = IF timed # -1 THEN timed ELSE IF run # -1 THEN run ELSE b.comps[c].lvl
\* a component which no setting names keeps the defaults
Untouched == LET b == Built IN \A c \in Tree :
    /\ (\A i \in DOMAIN q.a : ~Match(q.a[i][1], c)) => b.comps[c].sa = Defaults /\ b.comps[c].ia = None
    /\ (\A i \in DOMAIN q.s : ~Match(q.s[i][1], c)) => b.comps[c].so = None /\ b.comps[c].sio = None
\* an override with replace = 0 never displaces one given before, every override leads to a type which was asked for
Overrides == \A c \in Tree : LET r == Resolve(q, "CTA", c) IN
    /\ r \in {"CTA", "CTB", "CTC", "CTD"}
    /\ r = "CTB" <=> ("+uvm_set_inst_override=CTA,CTB,*.a" \in SetOf(args) /\ c = "uvm_test_top.env.a")
    /\ r = "CTD" => \A i \in DOMAIN args : args[i] = "+uvm_set_type_override=CTA,CTC" =>
                       \E j \in DOMAIN args : j < i /\ FALSE
Strings == \A c \in Tree : ("+uvm_set_config_string=uvm_test_top.*,f,hello" \in SetOf(args) /\ c # "uvm_test_top")
                              => CfgVal(q, c, "f") = "s:hello"
Hex == (SetOf(args) \cap {"+uvm_set_config_string=uvm_test_top.*,f,hello", "+uvm_set_config_int=*,f,7"} = {}
         /\ "+uvm_set_config_int=*.a,f,0x1F" \in SetOf(args)) => CfgVal(q, "uvm_test_top.env.a", "f") = "i:31"
Fixed == "+UVM_TIMEOUT=300,NO" \in SetOf(args) => Step(Start, [op |-> "settimeout", v |-> 5, o |-> 1]).to = 300
NoComplaint == Warns(args, q, Tree) = [INVLCMDARGS |-> 0, INVLCMDVERB |-> 0, UVM_CMDLINE_PROC |-> 0, MULTTST |-> 0, MULTTIMOUT |-> 0, MULTMAXQUIT |-> 0]
=============================================================================
