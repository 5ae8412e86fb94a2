------------------------------- MODULE WideTrace -------------------------------
(* The meaning of the actions of WideSession: distances by definition.          *)
EXTENDS Supports, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Sets(M) == TLCEval([i \in 1..Len(M) |-> SetOf(M[i])])
Clauses(e) ==
    CASE e.op = "wcode" ->
            LET G == Sets(e.m) IN
            If(e.rn = e.n, "C02.wide-length") \cup If(2 ^ e.rk = Distinct(G), "C02.wide-dimension")
            \cup If(e.ask \in {"dist", "both"} => e.d = LightestNonzero(G), "C03.wide-classical")
            \cup If(e.ask \in {"vector", "both"} => e.dv = NearestSum(G, SetOf(e.v)), "C03.wide-vector")
      [] e.op = "wraw" -> If(e.d = Lightest(Sets(e.m), Sets(e.s), IF e.hom THEN e.w ELSE e.n), "C03.wide-search")
      [] e.op = "wcss" ->
            If(e.rn = e.n, "C02.wide-length") \cup If(e.rk = Len(e.lx), "C02.wide-dimension")
            \cup If(e.d = Lightest(Sets(e.lx), Sets(e.hx), e.n), "C03.wide-css")
CheckEvent(s, e) == IF e.exc # "" THEN {"C03.wide-raises"} ELSE Clauses(e)
AfterEvent(s, e) == s
Start(case) == << >>
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
================================================================================
