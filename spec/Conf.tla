-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Conformance checking of recorded executions.  The trace file is a list  *)
(* of cases; each case is a list of events recorded from the real code.    *)
(* The instantiating specification supplies                                *)
(*    Init0(case)    the abstract state before the first event             *)
(*    StepOf(st, e)  the abstract state after event e                      *)
(*    Bad(st, e)     the set of names of clauses of the specification that *)
(*                   event e, observed in abstract state st, violates      *)
(* Every event is consumed (verdicts are total); clauses broken are        *)
(* printed as JSON.  Lanes of cases are independent, so that TLC's workers *)
(* check them in parallel.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Init0(_), StepOf(_, _), Bad(_, _), Lanes, Trace
VARIABLES cs,   \* index of the case being replayed
          ix,   \* number of events of the case already consumed
          st    \* abstract state
vars == <<cs, ix, st>>
Init == /\ cs \in 1..Lanes
        /\ ix = 0
        /\ st = Init0(Trace[cs])
Report(c, i, e, bad) ==
    IF bad = {} THEN TRUE ELSE PrintT(ToJson([id |-> c.id, ix |-> i, op |-> e.op, bad |-> bad]))
Consume == /\ ix < Len(Trace[cs].ev)
           /\ LET e == Trace[cs].ev[ix + 1]
              IN  /\ Report(Trace[cs], ix + 1, e, Bad(st, e))
                  /\ st' = StepOf(st, e)
           /\ ix' = ix + 1
           /\ UNCHANGED cs
NextCase == /\ ix = Len(Trace[cs].ev)
            /\ cs + Lanes <= Len(Trace)
            /\ cs' = cs + Lanes
            /\ ix' = 0
            /\ st' = Init0(Trace[cs'])
Next == Consume \/ NextCase
Spec == Init /\ [][Next]_vars
=============================================================================
