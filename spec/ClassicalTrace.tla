---------------------------- MODULE ClassicalTrace ----------------------------
(* The meaning of the actions of ClassicalSession.  Abstract state: a sequence *)
(* of codes [ok, q, n, H (checks as built), W (canonical basis of the words)]. *)
EXTENDS ClassicalAlgebra, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
MakeOps == {"new", "gen", "dual", "canon", "tensor", "stack", "puncture", "shorten"}
Built(e) == e.exc = "" /\ ~e.skip
Good(e) == e.n >= 0 /\ Rect(e.q, e.m, e.n)
BitSet(s) == {s[i] : i \in 1..Len(s)}
Rows(A) == {A[i] : i \in 1..Len(A)}
Owner(op) == CASE op \in {"cdims"} -> "C02" [] op \in {"cdist", "cdistv", "cdistb"} -> "C03"
               [] op = "ctrip" -> "C15" [] op = "random" -> "C19" [] op = "ceq" -> "C22" [] OTHER -> "C04"
\* what the words of the new code must be
Want(s, e) ==
    CASE e.op = "new" -> FromChecks(e.q, e.given, e.n)
      [] e.op = "gen" -> FromGenerator(e.q, e.given, e.n)
      [] e.op = "dual" -> DualW(e.q, s[e.o].W, s[e.o].n)
      [] e.op = "canon" -> s[e.o].W
      [] e.op = "tensor" -> TensorW(e.q, s[e.a].W, s[e.a].n, s[e.b].W, s[e.b].n)
      [] e.op = "stack" -> StackW(e.q, TLCEval([i \in 1..Len(e.os) |-> s[e.os[i]].W]), TLCEval([i \in 1..Len(e.os) |-> s[e.os[i]].n]))
      [] e.op = "puncture" -> PunctureW(e.q, s[e.o].W, s[e.o].n, BitSet(e.bits))
      [] e.op = "shorten" -> ShortenW(e.q, s[e.o].W, s[e.o].n, BitSet(e.bits))
WantN(s, e) ==
    CASE e.op \in {"new", "gen"} -> e.n
      [] e.op \in {"dual", "canon"} -> s[e.o].n
      [] e.op = "tensor" -> s[e.a].n * s[e.b].n
      [] e.op = "stack" -> SumSeq(TLCEval([i \in 1..Len(e.os) |-> s[e.os[i]].n]))
      [] OTHER -> s[e.o].n - Len(e.bits)
WantQ(s, e) == CASE e.op \in {"new", "gen"} -> e.wantq [] e.op = "tensor" -> s[e.a].q [] e.op = "stack" -> s[e.os[1]].q [] OTHER -> s[e.o].q
MakeClauses(s, e) ==
    IF ~Good(e) THEN {"C04.malformed"}
    ELSE IF e.q # WantQ(s, e) THEN {"C04.field-" \o e.op}
    ELSE IF e.n # WantN(s, e) THEN {"C04.length-" \o e.op}
    ELSE If(FromChecks(e.q, e.m, e.n) = Want(s, e), "C04.words-" \o e.op)
         \cup (IF e.op = "new" THEN If(e.m = e.given, "C04.checks-as-given") ELSE {})
         \cup (IF e.op = "canon" THEN If(e.m = ChecksOf(e.q, s[e.o].W, e.n), "C04.canonical") ELSE {})
\* permutations of 0..n-1, possibly without fixed points at the end
PadP(p, n) == TLCEval([i \in 1..n |-> IF i <= Len(p) THEN p[i] ELSE i - 1])
Automorphisms(q, W, n) == {p \in [1..n -> 0..n-1] : /\ \A i, j \in 1..n : i # j => p[i] # p[j]
                                                   /\ \A w \in Rows(W) : InRowSpace(q, W, [i \in 1..n |-> w[p[i] + 1]])}
MaxWeight(M) == FoldLeft(LAMBDA a, r : IF Weight(r) > a THEN Weight(r) ELSE a, 0, M)
QueryClauses(c, e) ==
    LET q == c.q n == c.n W == c.W k == Len(c.W) IN
    CASE e.op = "words" ->
            IF ~Rect(q, e.w, n) THEN {"C04.words-shape"}
            ELSE LET all == Words(q, W, n) want == IF e.skip0 THEN all \ {ZeroVec(n)} ELSE all
                 IN  If(Rows(e.w) = want, "C04.iter-words") \cup If(e.fixed => Len(e.w) = Cardinality(want), "C04.iter-words-repeats")
      [] e.op = "contains" ->
            LET in(v) == \A i \in 1..Len(c.H) : Dot(q, c.H[i], v) = 0
            IN  If(e.r = (\A i \in 1..Len(e.v) : in(e.v[i])), "C04.membership")
      [] e.op = "generator" -> IF ~Rect(q, e.r, n) THEN {"C04.generator-shape"}
                               ELSE If(RREF(q, e.r, n) = W, "C04.generator") \cup If(e.fixed => Len(e.r) = k, "C04.generator-basis")
      [] e.op = "rndword" -> If(Rect(q, <<e.r>>, n) /\ InRowSpace(q, W, e.r), "C04.random-word")
                             \cup If(e.r = e.r2, "C19.random-word-seed") \cup If(e.r = e.r2, "C04.random-word-seed")
                             \cup If(Rect(q, <<e.r>>, n) /\ InRowSpace(q, W, e.r), "C19.random-word")
                             \cup If(e.state, "C19.random-state")
      [] e.op = "auto" -> If({PadP(e.r[i], n) : i \in 1..Len(e.r)} = Automorphisms(q, W, n) /\ e.order = Cardinality(Automorphisms(q, W, n)), "C04.automorphisms")
      [] e.op = "cdims" -> If(e.n = n, "C02.c-length") \cup If(e.k = k, "C02.c-dimension") \cup If(e.rank = n - k, "C02.c-rank")
                           \cup If(e.checks = Len(c.H), "C02.c-num-checks") \cup If(e.weight = MaxWeight(c.H), "C02.c-weight")
      [] e.op = "cdist" -> If(e.d = MinWeight(q, W, n), "C03.c-exact")
                           \cup If({e.known0, e.known1} \subseteq {-9, MinWeight(q, W, n)}, "C03.c-known") \cup If({e.known0, e.known1} \subseteq {-9, e.d}, "C07.c-remembered") \cup If(e.params = <<n, k, MinWeight(q, W, n)>>, "C02.c-params")
      [] e.op = "cdistv" -> If(e.d = NearestWord(q, W, n, e.v), "C03.c-vector")
      [] e.op = "cdistb" -> LET d == IF e.vec = << >> THEN MinWeight(q, W, n) ELSE NearestWord(q, W, n, e.vec)
                            IN  If(e.d >= d, "C03.c-bound") \cup If(e.d <= n, "C03.c-bound-length")
                                \cup If(e.dec \in {"ilp", "lookup"} /\ e.vec # << >> /\ e.how # "cutoff" => e.d = d, "C03.c-bound-exact-decoder")
      [] e.op = "setgen" -> LET ok == Rect(q, e.m, n) /\ RREF(q, e.m, n) = W /\ Len(e.m) = k
                            IN  If(e.ok = ok, IF e.ok THEN "C04.set-generator-accepts-invalid" ELSE "C04.set-generator-rejects-valid")
      [] e.op = "ctrip" -> If(e.m = c.H /\ e.q = q /\ e.n = n, "C15.classical-" \o e.via)
EqClauses(s, e) ==
    LET A == s[e.a] B == s[e.b] IN
    If(e.eq = (A.q = B.q /\ A.n = B.n /\ A.H = B.H), "C22.classical-eq")
    \cup If(e.ne = ~e.eq, "C22.classical-ne")
    \cup If(e.equiv = (A.q = B.q /\ A.n = B.n /\ A.W = B.W), "C22.classical-equiv")
RandomClauses(e) ==
    IF ~(e.rq = e.q /\ IsMat(e.q, e.m, e.checks, e.n)) THEN {"C19.random-code-shape"}
    ELSE If(\A i \in 1..Len(e.m) : ~IsZero(e.m[i]), "C19.random-code-zero-row")
         \cup If(\A j \in 1..e.n : \E i \in 1..Len(e.m) : e.m[i][j] # 0, "C19.random-code-zero-column")
         \cup If(e.m = e.m2, "C19.random-code-seed") \cup If(e.state, "C19.random-state")
CheckEvent(s, e) ==
    LET mut == IF e.mut = << >> THEN {} ELSE {"C04.mutated", "C07.classical-mutated"} IN
    IF e.skip THEN mut
    ELSE IF e.exc # "" THEN mut \cup {Owner(e.op) \o ".raises"}
    ELSE mut \cup
       (IF e.op \in MakeOps THEN MakeClauses(s, e)
        ELSE IF e.op = "ceq" THEN EqClauses(s, e)
        ELSE IF e.op = "random" THEN RandomClauses(e)
        ELSE QueryClauses(s[e.o], e))
NoCode == [ok |-> FALSE]
AfterEvent(s, e) ==
    IF e.op \notin MakeOps THEN s
    ELSE IF ~Built(e) \/ ~Good(e) THEN Append(s, NoCode)
    ELSE Append(s, [ok |-> TRUE, q |-> e.q, n |-> e.n, H |-> e.m, W |-> FromChecks(e.q, e.m, e.n)])
Start(case) == << >>
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
===============================================================================
