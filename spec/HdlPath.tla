------------------------------- MODULE HdlPath -------------------------------
(***************************************************************************)
(* Paths into the design, and accesses through them.  cfg: blocks (parent  *)
(* of each, 0 = none, and the path each was configured with), things (the  *)
(* registers and memories: kind, block, width, acc: the bits of a register *)
(* that can only be read, path "" or the single path configured)           *)
(*   addp b p k / root b p k / defk b k     paths of blocks                *)
(*   slice x p off size first k / concat x s k   paths of things           *)
(*   fullb b k sep r err / full x k sep r err    the full paths            *)
(*   hasb b k r / has x k r / isroot b k r / getdef b r                    *)
(*   sig p v             the design changes a signal                       *)
(*   acc x how k i v st err mir sigs   an access: how is write, read, poke *)
(*                       or peek, i the offset in a memory, sigs all       *)
(*                       signals afterwards, mir the mirror of a register  *)
(* Off -1: the whole value.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Whole(p) == [p |-> p, off |-> -1, size |-> -1]
Init0(cfg) ==
  [par |-> [b \in DOMAIN cfg.blocks |-> cfg.blocks[b].par],
   bp |-> [b \in DOMAIN cfg.blocks |-> "RTL" :> <<cfg.blocks[b].path>>],
   root |-> [b \in DOMAIN cfg.blocks |-> <<>>],
   def |-> [b \in DOMAIN cfg.blocks |-> "RTL"],
   th |-> cfg.things,
   tp |-> [x \in DOMAIN cfg.things |-> IF cfg.things[x].path = "" THEN <<>> ELSE "RTL" :> << <<Whole(cfg.things[x].path)>> >>],
   sig |-> <<>>, mir |-> [x \in DOMAIN cfg.things |-> 0]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
\* -- full paths: [r: the paths, err: how often a missing path was reported]
RECURSIVE Def(_, _), FullB(_, _, _, _)
Def(st, b) == IF st.def[b] = "" /\ st.par[b] # 0 THEN Def(st, st.par[b]) ELSE st.def[b]
Kind(st, b, k) == IF k = "" THEN Def(st, b) ELSE k
Under(pp, sep, p) == IF p = "" THEN pp ELSE pp \o sep \o p
FullB(st, b, kk, sep) ==
  LET k == Kind(st, b, kk) IN
  IF k \in DOMAIN st.root[b] THEN [r |-> IF st.root[b][k] = "" THEN <<>> ELSE <<st.root[b][k]>>, err |-> 0]
  ELSE IF k \notin DOMAIN st.bp[b] THEN [r |-> <<>>, err |-> 1]
  ELSE LET u == IF st.par[b] = 0 THEN [r |-> <<>>, err |-> 0] ELSE FullB(st, st.par[b], k, sep)
           own == st.bp[b][k] IN
       [err |-> u.err,
        r |-> IF u.r = <<>> THEN SelectSeq(own, LAMBDA p : p # "")
              ELSE Cat([i \in DOMAIN own |-> [j \in DOMAIN u.r |-> Under(u.r[j], sep, own[i])]])]
Full(st, x, kk, sep) ==
  LET b == st.th[x].block
      k == Kind(st, b, kk) IN
  IF k \notin DOMAIN st.tp[x] THEN [r |-> <<>>, err |-> 1]
  ELSE LET u == FullB(st, b, k, sep)
           own == st.tp[x][k] IN
       [err |-> u.err,
        r |-> Cat([i \in DOMAIN own |-> [j \in DOMAIN u.r |->
                 [n \in DOMAIN own[i] |-> IF own[i][n].p = "" THEN Whole(u.r[j]) ELSE [own[i][n] EXCEPT !.p = u.r[j] \o sep \o @]]]])]
\* -- accesses
RECURSIVE Read1(_, _, _), Put(_, _, _, _), PutAll(_, _, _, _)
Name(c, idx) == c.p \o idx
Read1(sig, con, idx) == IF con = <<>> THEN 0
  ELSE LET c == Head(con)
           v == Get(sig, Name(c, idx), 0) IN
       (IF c.off < 0 THEN v ELSE (v % (2 ^ c.size)) * (2 ^ c.off)) + Read1(sig, Tail(con), idx)
Put(sig, con, idx, v) == IF con = <<>> THEN sig
  ELSE LET c == Head(con)
           w == IF c.off < 0 THEN v ELSE (v \div (2 ^ c.off)) % (2 ^ c.size) IN
       Put((Name(c, idx) :> w) @@ sig, Tail(con), idx, v)
PutAll(sig, cons, idx, v) == IF cons = <<>> THEN sig ELSE PutAll(Put(sig, Head(cons), idx, v), Tail(cons), idx, v)
Vals(st, x, cons, idx) == [i \in DOMAIN cons |-> Read1(st.sig, cons[i], idx) % (2 ^ st.th[x].w)]
RECURSIVE Merge(_, _, _, _)
\* the bits a write changes: those of cur where ro has a one, those of v elsewhere, within the fields
Merge(cur, v, ro, w) == IF w = 0 THEN 0
  ELSE (IF ro % 2 = 1 THEN cur % 2 ELSE v % 2) + 2 * Merge(cur \div 2, v \div 2, ro \div 2, w - 1)
Idx(st, x, i) == IF st.th[x].kind = "mem" THEN "[" \o ToString(i) \o "]" ELSE ""
After(st, e) ==
  LET x == e.x
      f == Full(st, x, e.k, ".").r
      id == Idx(st, x, e.i)
      vs == Vals(st, x, f, id)
      same == \A i \in DOMAIN vs : vs[i] = vs[1]
      w == st.th[x].w IN
  CASE e.how \in {"read", "peek"} -> [sig |-> st.sig, ok |-> same, val |-> vs[1], mir |-> IF same /\ st.th[x].kind = "reg" THEN vs[1] ELSE st.mir[x], err |-> ~same]
    [] e.how = "write" /\ st.th[x].kind = "reg" ->
         LET m == Merge(vs[1], e.v, st.th[x].acc, w) IN
         IF same THEN [sig |-> PutAll(st.sig, f, id, m), ok |-> TRUE, val |-> 0, mir |-> m, err |-> FALSE]
         ELSE [sig |-> st.sig, ok |-> FALSE, val |-> 0, mir |-> st.mir[x], err |-> TRUE]
    [] OTHER -> [sig |-> PutAll(st.sig, f, id, e.v % (2 ^ w)), ok |-> TRUE, val |-> 0, mir |-> st.mir[x], err |-> FALSE]
SigOk(sig, ss) == \A s \in Range(ss) : Get(sig, s.p, 0) = s.v
Bad(st, e) ==
  CASE e.op \in {"crash", "hang"} -> e.op
    [] e.op = "fullb" -> LET f == FullB(st, e.b, e.k, e.sep) IN IF e.r # f.r THEN "block.full-path" ELSE IF e.err # f.err THEN "block.report" ELSE ""
    [] e.op = "full" -> LET f == Full(st, e.x, e.k, e.sep) IN IF e.r # f.r THEN "full-path" ELSE IF e.err # f.err THEN "report" ELSE ""
    [] e.op = "hasb" -> IF e.r # (Kind(st, e.b, e.k) \in DOMAIN st.bp[e.b]) THEN "block.has-path" ELSE ""
    [] e.op = "has" -> IF e.r # (Kind(st, st.th[e.x].block, e.k) \in DOMAIN st.tp[e.x]) THEN "has-path" ELSE ""
    [] e.op = "isroot" -> IF e.r # (Kind(st, e.b, e.k) \in DOMAIN st.root[e.b]) THEN "block.is-root" ELSE ""
    [] e.op = "getdef" -> IF e.r # Def(st, e.b) THEN "block.default-kind" ELSE ""
    [] e.op = "acc" -> LET a == After(st, e) IN
         IF e.st # a.ok THEN "access.status" ELSE IF e.how \in {"read", "peek"} /\ a.ok /\ e.v # a.val THEN "access.value"
         ELSE IF ~SigOk(a.sig, e.sigs) \/ ~(DOMAIN a.sig \subseteq {s.p : s \in Range(e.sigs)}) THEN "access.signals"
         ELSE IF st.th[e.x].kind = "reg" /\ e.mir # a.mir THEN "access.mirror"
         \* (a read also checks the mirror)
         ELSE IF e.err > 0 /\ ~a.err /\ ~(e.how = "read" /\ a.mir # st.mir[e.x]) THEN "access.false-report"
         ELSE IF e.err = 0 /\ a.err THEN "access.report" ELSE ""
    [] OTHER -> ""
Add(f, k, v) == (k :> Append(Get(f, k, <<>>), v)) @@ f
SliceOf(e) == [p |-> e.p, off |-> e.off, size |-> e.size]
Step(st, e) ==
  CASE e.op = "addp" -> [st EXCEPT !.bp[e.b] = Add(@, e.k, e.p)]
    [] e.op = "root" -> [st EXCEPT !.root[e.b] = (Kind(st, e.b, e.k) :> e.p) @@ @]
    [] e.op = "defk" -> [st EXCEPT !.def[e.b] = IF e.k = "" THEN Def(st, st.par[e.b]) ELSE e.k]
    [] e.op = "concat" -> [st EXCEPT !.tp[e.x] = Add(@, e.k, e.s)]
    [] e.op = "slice" -> LET old == Get(st.tp[e.x], e.k, <<>>) IN
         [st EXCEPT !.tp[e.x] = IF e.first \/ old = <<>> THEN Add(@, e.k, <<SliceOf(e)>>)
                                ELSE [@ EXCEPT ![e.k] = [@ EXCEPT ![Len(@)] = Append(@, SliceOf(e))]]]
    [] e.op = "sig" -> [st EXCEPT !.sig = (e.p :> e.v) @@ @]
    [] e.op = "acc" -> LET a == After(st, e) IN [st EXCEPT !.sig = a.sig, !.mir[e.x] = a.mir]
    [] OTHER -> st
Exp(st, e) == IF e.op = "acc" THEN After(st, e) ELSE IF e.op = "full" THEN Full(st, e.x, e.k, e.sep)
              ELSE IF e.op = "fullb" THEN FullB(st, e.b, e.k, e.sep) ELSE ""
=============================================================================
