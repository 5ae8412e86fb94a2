------------------------------- MODULE RandomTrace -------------------------------
(***************************************************************************)
(* Recorded histories of randomised constructions.  A record carries the   *)
(* result in this process (r) and in a second process that ran the same    *)
(* history with other global random states and another hash seed (twin).   *)
(* Abstract state: the objects built so far, whether each is the same in   *)
(* both processes, and the seeded requests answered so far.                *)
(***************************************************************************)
EXTENDS Stab, Perms, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
Start(case) == [codes |-> << >>, css |-> << >>, grp |-> << >>, memo |-> {}]
Seeded(e) == e.seed >= 0
\* the object a request is about is the same in both processes
Det(s, e) == CASE e.op = "word" -> s.codes[e.o].det [] e.op = "lop" -> s.css[e.o].det [] OTHER -> TRUE
Request(e) == CASE e.op = "scramble" -> <<"scramble", e.seed>>
                [] e.op = "array" -> <<"array", e.q, e.shape, e.cond, e.seed>>
                [] e.op = "code" -> <<"code", e.q, e.n, e.checks, e.seed>>
                [] e.op = "word" -> <<"word", e.o, e.seed>>
                [] e.op = "lop" -> <<"lop", e.o, e.pauli, e.nontrivial, e.seed>>
                [] e.op = "member" -> <<"member", e.o, e.seed>>
                [] e.op = "subset" -> <<"subset", e.o, e.size, e.noid, e.seed>>
Drawn == {"scramble", "array", "code", "word", "lop", "member", "subset"}
Isolated == {"scramble", "array", "code", "word", "lop"}
Same(s, e) == If(\A m \in s.memo : m[1] = Request(e) => m[2] = ToString(e.r), "C19.not-reproducible-in-history")
              \cup (IF Det(s, e) THEN If(e.r = e.twin, "C19.not-reproducible-across-processes") ELSE {})
              \cup If(e.op \in Isolated => e.state, "C19.global-state")
Size(shape) == IF Len(shape) = 1 THEN shape[1] ELSE shape[1] * shape[2]
Width(shape) == shape[Len(shape)]
RowsOf(r, w) == [i \in 1..(Len(r) \div w) |-> SubSeq(r, (i - 1) * w + 1, i * w)]
CondOK(e) == CASE e.cond = "none" -> TRUE [] e.cond = "nonzero" -> ~IsZero(e.r)
               [] e.cond = "zerosum" -> FoldLeft(LAMBDA a, i : Add(e.q, a, e.r[i]), 0, Idx[Len(e.r)]) = 0
               [] e.cond = "first" -> e.r[1] = 1
               [] e.cond = "rows" -> LET R == RowsOf(e.r, Width(e.shape)) IN \A i \in 1..Len(R) : ~IsZero(R[i])
Post(s, e) ==
    CASE e.op = "array" -> IF e.q_ = e.q /\ e.shape_ = e.shape /\ Len(e.r) = Size(e.shape) /\ \A i \in 1..Len(e.r) : e.r[i] \in 0..e.q-1
                           THEN If(CondOK(e), "C19.array-condition") ELSE {"C19.array-shape"}
      [] e.op = "code" -> IF ~(e.q_ = e.q /\ IsMat(e.q, e.r, e.checks, e.n)) THEN {"C19.code-shape"}
                          ELSE If(\A i \in 1..e.checks : ~IsZero(e.r[i]), "C19.code-zero-row") \cup If(\A j \in 1..e.n : \E i \in 1..e.checks : e.r[i][j] # 0, "C19.code-zero-column")
      [] e.op = "word" -> LET c == s.codes[e.o] IN
                          If(Len(e.r) = c.n /\ (\A i \in 1..c.n : e.r[i] \in 0..c.q-1) /\ IsZero(MatVec(c.q, c.H, e.r)), "C19.word")
      [] e.op = "lop" -> LET c == s.css[e.o]
                             mine == IF e.pauli = "x" THEN c.hx ELSE c.hz
                             theirs == IF e.pauli = "x" THEN c.hz ELSE c.hx
                         IN  IF ~(Len(e.r) = c.n /\ \A i \in 1..c.n : e.r[i] \in 0..c.q-1) THEN {"C19.logical-shape"}
                             ELSE IF ~IsZero(MatVec(c.q, theirs, e.r)) THEN {"C19.logical-commutes"}
                             \* in the kernel of the other checks: trivial iff it is spanned by its own checks
                             ELSE IF e.nontrivial THEN If(~InRowSpace(c.q, RREF(c.q, mine, c.n), e.r), "C19.logical-trivial") ELSE {}
      [] e.op = "member" -> If(\E i \in 1..Len(s.grp[e.o]) : s.grp[e.o][i] = e.r, "C19.member")
      [] e.op = "subset" -> LET R == {e.r[i] : i \in 1..Len(e.r)} M == {s.grp[e.o][i] : i \in 1..Len(s.grp[e.o])} IN
                            If(R \subseteq M, "C19.subset-members") \cup If(Cardinality(R) = e.size /\ Len(e.r) = e.size, "C19.subset-size")
                            \cup If(\A x \in R : PInv(x) \in R, "C19.subset-symmetric")
                            \cup If(e.noid => \A x \in R : x # PId(Len(x)), "C19.subset-identity")
      [] OTHER -> {}
CheckEvent(s, e) ==
    IF e.skip THEN {}
    ELSE IF e.op = "subset" /\ (e.size < 1 \/ e.size > Len(s.grp[e.o])) THEN If(e.exc = "ValueError", "C19.subset-size-rejected")
    ELSE IF e.exc # "" THEN (IF e.op \in Drawn THEN {"C19.raises-" \o e.op} ELSE IF e.op = "disturb" THEN {} ELSE {"C19.raises-make"})
    ELSE IF e.op \notin Drawn THEN {}
    ELSE LET p == Post(s, e) IN p \cup (IF Seeded(e) THEN Same(s, e) ELSE {})
AfterEvent(s, e) ==
    LET s1 == IF e.skip \/ e.exc # "" \/ e.op \notin Drawn \/ ~Seeded(e) THEN s ELSE [s EXCEPT !.memo = @ \cup {<<Request(e), ToString(e.r)>>}]
    IN  CASE e.op = "code" /\ e.exc = "" -> [s1 EXCEPT !.codes = Append(@, [q |-> e.q, n |-> e.n, H |-> e.r, det |-> Seeded(e)])]
          [] e.op = "css" -> [s1 EXCEPT !.css = Append(@, [q |-> e.q_, n |-> e.n_, hx |-> e.hx, hz |-> e.hz,
                                                           det |-> ~e.from \/ \A i \in 1..Len(s.codes) : s.codes[i].det])]
          [] e.op = "grp" -> [s1 EXCEPT !.grp = Append(@, e.mem)]
          [] OTHER -> s1
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
===============================================================================
