------------------------------- MODULE CacheTrace -------------------------------
(***************************************************************************)
(* Recorded schedules against the protocol of CacheModel.  The record of   *)
(* an action says where the process stopped next: "read" or "write" of the *)
(* store, "compute" in the function, "ret" with the value, "exc", "died".  *)
(* Abstract state: for each process the call it is in, and the calls whose *)
(* results are certainly stored (completed, not evicted since).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
Idle == [busy |-> FALSE, fn |-> "", a |-> << >>, sure |-> FALSE, computed |-> FALSE, raised |-> FALSE]
Start(case) == [p |-> [i \in 1..4 |-> Idle], memo |-> {}, off |-> FALSE]
Key(fn, a) == <<fn, a>>
Stops(e) == e.at        \* sequence of stops reached during this action
\* one stop of process p with its process record r
StopBad(s, r, x) ==
    CASE x.at = "ret" -> If(x.r = x.plain, "C17.wrong-value") \cup If(~r.raised, "C17.swallowed-error") \cup If(~s.off \/ r.computed, "C17.disabled-but-cached")
      [] x.at = "exc" -> If(r.raised /\ x.r = "Boom", "C17.raises")
      [] x.at = "compute" -> If(~r.sure, "C17.not-memoized") \cup If(~r.computed, "C17.computes-twice")
      [] x.at = "write" -> If(~r.raised, "C17.stores-failure")
      [] OTHER -> {}
StopNext(r, x) ==
    CASE x.at \in {"ret", "exc", "died"} -> Idle
      [] x.at = "compute" -> [r EXCEPT !.computed = TRUE, !.raised = (x.out = "raise")]
      [] OTHER -> r
RECURSIVE Walk(_, _, _, _)
Walk(s, r, xs, bad) == IF xs = << >> THEN <<r, bad>> ELSE Walk(s, StopNext(r, Head(xs)), Tail(xs), bad \cup StopBad(s, r, Head(xs)))
Begin(s, e) == [Idle EXCEPT !.busy = TRUE, !.fn = e.fn, !.a = e.a, !.sure = (Key(e.fn, e.a) \in s.memo)]
\* a computation that was left unfinished goes on with the outcome chosen now
From(s, e) == LET r == IF e.op = "call" THEN Begin(s, e) ELSE s.p[e.p]
              IN  IF e.op = "call" \/ ~e.resumed THEN r ELSE [r EXCEPT !.raised = (e.out = "raise")]
Moves == {"call", "step", "run", "die"}
CheckEvent(s, e) == IF e.op \in Moves /\ ~e.skip THEN Walk(s, From(s, e), e.at, {})[2] ELSE {}
Completed(e) == e.op \in {"call", "step", "run"} /\ Len(e.at) > 0 /\ e.at[Len(e.at)].at = "ret"
AfterEvent(s, e) ==
    IF e.op = "setup" THEN [s EXCEPT !.off = e.off]
    ELSE IF e.op = "evict" THEN [s EXCEPT !.memo = {m \in s.memo : m[1] # e.fn}, !.p = [i \in 1..4 |-> IF s.p[i].fn = e.fn THEN [s.p[i] EXCEPT !.sure = FALSE] ELSE s.p[i]]]
    ELSE IF e.op \notin Moves \/ e.skip THEN s
    ELSE LET r0 == From(s, e)
             w == Walk(s, r0, e.at, {})
             k == Key(r0.fn, r0.a)
         IN  [s EXCEPT !.p = [s.p EXCEPT ![e.p] = w[1]], !.memo = IF Completed(e) /\ ~s.off THEN s.memo \cup {k} ELSE s.memo]
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
===============================================================================
