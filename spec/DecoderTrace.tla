------------------------------ MODULE DecoderTrace ------------------------------
(* The meaning of decoding: which answers each kind of decoder may give.         *)
EXTENDS DecoderAlgebra, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
Problem(e) == [ok |-> e.exc = "" /\ ~e.skip, q |-> e.q, n |-> e.n, H |-> e.H, symp |-> e.symp, kind |-> e.kind, w |-> e.w]
Exact(p) == p.kind \in {"ilp", "mwpm"} \/ (p.kind = "lookup" /\ p.w # -1 /\ p.w = p.n)
Limit(p) == IF p.w = -1 THEN HalfDistance(p) ELSE p.w
Vec(p, r) == Rect(p.q, <<r>>, Width(p))
Explains(p, r, s) == SyndromeOf(p, r) = s
\* Problems too large to enumerate all errors: an exact decoder may not do worse than the error that was planted
Big(p) == p.n > (IF p.symp THEN 5 ELSE 9)
BigAnswer(p, s, r, wt) ==
    IF ~Vec(p, r) THEN {"C08.not-an-error-" \o p.kind}
    ELSE IF p.kind = "lookup"
    THEN IF wt # -1 /\ wt <= p.w
         THEN If(Explains(p, r, s), "C08.lookup-explains") \cup If(WeightOf(p, r) <= wt, "C08.lookup-minimum")
         ELSE If(IsZero(r) \/ Explains(p, r, s), "C08.lookup-zero")
    ELSE IF ~Satisfiable(p, s)
         THEN IF (p.kind = "default" /\ p.q # 2) \/ p.kind = "guf" THEN If(IsZero(r), "C08.guf-unexplained-zero") ELSE {}
         ELSE If(Explains(p, r, s), "C08.explains-" \o p.kind)
              \cup (IF Exact(p) /\ wt # -1 THEN If(WeightOf(p, r) <= wt, "C08.minimum-" \o p.kind) ELSE {})
\* clauses broken by answer r to syndrome s (of an error of weight wt, or -1)
Answer(p, s, r, wt) ==
    IF Big(p) THEN BigAnswer(p, s, r, wt)
    ELSE IF ~Vec(p, r) THEN {"C08.not-an-error-" \o p.kind}
    ELSE LET best == MinExplanation(p, s) IN
      IF p.kind = "lookup"
      THEN IF best # -1 /\ best <= Limit(p)
           THEN If(Explains(p, r, s), "C08.lookup-explains") \cup If(WeightOf(p, r) = best, "C08.lookup-minimum")
           ELSE If(IsZero(r), "C08.lookup-zero")
      ELSE IF best = -1
           THEN IF (p.kind = "default" /\ p.q # 2) \/ p.kind = "guf" THEN If(IsZero(r), "C08.guf-unexplained-zero") ELSE {}
           ELSE If(Explains(p, r, s), "C08.explains-" \o p.kind)
                \cup (IF Exact(p) THEN If(WeightOf(p, r) = best, "C08.minimum-" \o p.kind) ELSE {})
\* only an integer program (or a matching) may refuse, and only a syndrome without explanation
MayRaise(p, s) == p.kind \in {"ilp", "mwpm"} /\ ~Satisfiable(p, s)
BlockClauses(p, e) ==
    LET w == Width(p) k == Len(e.ss) IN
    IF Len(e.r) # k * w THEN {"C08.block-shape"}
    ELSE UNION {Answer(p, e.ss[i], SubSeq(e.r, (i - 1) * w + 1, i * w), -1) : i \in 1..k}
DirectClauses(p, e) ==
    IF ~Vec(p, e.r) THEN {"C08.direct-shape"}
    ELSE LET s == SyndromeOf(p, e.word) IN Answer(p, s, VSub(p.q, e.word, e.r), -1)
CheckEvent(s, e) ==
    LET mut == If(e.mut = << >>, "C08.mutated") IN
    IF e.skip THEN mut
    ELSE IF e.op = "make" THEN mut \cup If(e.exc = "", "C08.raises-make-" \o e.kind)
    ELSE IF e.op = "custom" THEN mut \cup If(e.exc = "" /\ e.same, "C08.custom")
    ELSE LET p == s[e.d] IN
         IF e.exc # "" THEN mut \cup (IF e.op = "decode" /\ MayRaise(p, e.s) THEN {} ELSE {"C08.raises-" \o p.kind})
         ELSE mut \cup (CASE e.op = "decode" -> Answer(p, e.s, e.r, e.wt)
                          [] e.op = "block" -> BlockClauses(p, e)
                          [] e.op = "direct" -> DirectClauses(p, e))
AfterEvent(s, e) == IF e.op = "make" THEN Append(s, Problem(e)) ELSE s
Start(case) == << >>
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
=================================================================================
