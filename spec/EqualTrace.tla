------------------------------- MODULE EqualTrace -------------------------------
(***************************************************************************)
(* Recorded comparisons of codes and operators against the definitions:    *)
(* equal data for equality, equal fields and row spaces for equivalence.   *)
(***************************************************************************)
EXTENDS Stab, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
Start(case) == << >>
Whole(n, css, X, Z) == IF css THEN [i \in 1..Len(X) |-> X[i] \o ZeroVec(n)] \o [i \in 1..Len(Z) |-> ZeroVec(n) \o Z[i]] ELSE X
Code(e) == [q |-> e.q_, n |-> e.n_, M |-> e.M, css |-> e.css_, cls |-> e.cls, mx |-> e.mx, ok |-> e.exc = "", R |-> IF e.exc = "" THEN RREF(e.q_, e.M, 2 * e.n_) ELSE << >>]
SameData(a, b) == a.q = b.q /\ a.n = b.n /\ a.M = b.M
\* classes of codes that are determined by their checks alone; codes of different classes may or may not count as equal
\* (checks that act on nothing belong to one of the two sectors of a CSS code)
Comparable(a, b) == (a.cls = b.cls /\ a.mx = b.mx) \/ (~a.css /\ ~b.css)
Equivalent(a, b) == a.q = b.q /\ a.n = b.n /\ a.R = b.R
CheckEvent(s, e) ==
    CASE e.op = "make" -> IF e.exc # "" THEN {"C22.raises-make"}
            ELSE If(e.q_ = e.q /\ e.n_ = e.n /\ e.M = Whole(e.n, e.css, e.X, e.Z), "C22.data")
      [] e.op = "derive" -> IF e.skip THEN {} ELSE IF e.exc # "" THEN {"C22.raises-derive"}
            ELSE LET a == s[e.o] b == Code(e) IN
                 CASE e.how = "conj" -> {} [] e.how \in {"copy", "general", "strings"} -> If(SameData(a, b), "C22.derived-data") [] OTHER -> If(Equivalent(a, b), "C22.canonical-equivalent")
      [] e.op = "compare" -> LET a == s[e.a] b == s[e.b] IN
            IF ~a.ok \/ ~b.ok THEN {} ELSE IF e.exc # "" THEN {"C22.raises-compare"}
            ELSE If(e.eq = e.qe, "C22.equality-symmetric") \cup If(e.ne = ~e.eq, "C22.inequality") \cup If(e.eq => SameData(a, b), "C22.equal-data")
                 \cup If(e.a = e.b => e.eq, "C22.equality-reflexive")
                 \cup If((SameData(a, b) /\ Comparable(a, b)) => e.eq, "C22.same-data-equal")
                 \cup If(\A i \in 1..Len(e.equiv) : e.equiv[i] = Equivalent(a, b), "C22.equivalence")
                 \cup If(e.typed, "C22.answers-are-boolean")
      [] e.op = "alien" -> IF ~s[e.a].ok THEN {} ELSE If(e.exc = "" /\ ~e.eq, "C22.equality-type")
      [] e.op = "operators" -> IF e.exc # "" THEN {"C22.raises-operators"}
            ELSE If(e.eq = (e.ua = e.va), "C22.operator-equality") \cup If(e.eq = e.qe /\ e.ne = ~e.eq, "C22.operator-equality-symmetric") \cup If(e.eq => e.hash, "C22.operator-hash")
                 \cup If(e.ordered, "C22.operator-order")
      [] OTHER -> {}
AfterEvent(s, e) == IF e.op \in {"make", "derive", "named"} THEN Append(s, Code(e)) ELSE s
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
===============================================================================
