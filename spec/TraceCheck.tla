----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Generic, total trace validation.                                        *)
(*                                                                         *)
(* A subsystem module supplies                                             *)
(*    Init0(cfg)   the abstract initial state of a configuration           *)
(*    Bad(st, e)   "" if the specification allows event e in state st,     *)
(*                 otherwise the name of the clause that e breaks          *)
(*    Exp(st, e)   what the specification expected (diagnostics only)      *)
(*    Step(st, e)  the abstract state after e                              *)
(* and this module runs it over a batch of recorded traces.  Every trace   *)
(* ends in exactly one verdict: @@END (accepted) or @@BAD (clause named).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Traces, Init0(_), Bad(_, _), Exp(_, _), Step(_, _)
VARIABLES tid, l, st

TraceInit == /\ tid \in 1 .. Len(Traces)
             /\ l = 0
             /\ st = Init0(Traces[tid].cfg)

Verdict(b, e) == PrintT("@@BAD " \o ToJson([tid |-> tid, l |-> l + 1,
                                             clause |-> b, ev |-> e, exp |-> Exp(st, e)]))

Advance(e, b) ==
    IF b = "" THEN /\ st' = Step(st, e)
                   /\ l' = l + 1
                   /\ UNCHANGED tid
              ELSE /\ Verdict(b, e)
                   /\ l' = -1
                   /\ UNCHANGED <<tid, st>>

TraceNext ==
    \/ /\ l >= 0 /\ l < Len(Traces[tid].ev)
       /\ LET e == Traces[tid].ev[l + 1]
          IN  Advance(e, Bad(st, e))
    \/ /\ l >= 0 /\ l = Len(Traces[tid].ev)
       /\ PrintT("@@END " \o ToString(tid))
       /\ l' = -2
       /\ UNCHANGED <<tid, st>>
=============================================================================
