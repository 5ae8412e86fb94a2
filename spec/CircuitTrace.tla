------------------------------ MODULE CircuitTrace ------------------------------
(***************************************************************************)
(* The meaning of the actions of CircuitSession.  Signed Paulis are        *)
(* recorded as [s, v]; circuits as sequences of gates [g, t].  All claims  *)
(* are decided by conjugating phased Paulis (Clifford) and by membership   *)
(* in groups of phased stabilizers.                                        *)
(***************************************************************************)
EXTENDS CodeTrace, Clifford

SignedRect(As, m, n) == Len(As) = m /\ \A i \in 1..m : Len(As[i].v) = 2 * n /\ As[i].s \in 0..1 /\ \A j \in 1..2 * n : As[i].v[j] \in 0..1
Vs(As) == TLCEval([i \in 1..Len(As) |-> As[i].v])
Images(n, ops, As) == TLCEval([i \in 1..Len(As) |-> SignedCircuit(n, ops, As[i])])
GatesOK(n, ops) == \A i \in 1..Len(ops) : ops[i].g \in DOMAIN Decomposed /\ \A j \in 1..Len(ops[i].t) : ops[i].t[j] \in 1..n
Rejects(e) == If(e.exc = "ValueError", "C16.accepts-qudits")

(* ---- encoders -------------------------------------------------------------------------------- *)
EncodingClauses(o, L, xs, zs) ==
    LET i == o.info  n == i.n  k == i.k  g == i.g IN
    IF ~(SignedRect(xs, n, n) /\ SignedRect(zs, n, n)) THEN {"C16.encoding-shape"}
    ELSE IF ~ValidLogicals(i, L) THEN {"C16.encoding-logicals-invalid"}
    ELSE LET gx == SubSeq(xs, k + 1, k + g)  gz == SubSeq(zs, k + 1, k + g)  sz == SubSeq(zs, k + g + 1, n)
         IN  If(\A j \in 1..k : xs[j] = [s |-> 0, v |-> L[j]] /\ zs[j] = [s |-> 0, v |-> L[k + j]], "C16.encoding-logical")
             \cup If(\A j \in 1..Len(sz) : sz[j].s = 0, "C16.encoding-stabilizer-sign")
             \cup If(RREF(2, Vs(sz), 2 * n) = i.S, "C16.encoding-stabilizer")
             \cup If(RREF(2, Vs(sz) \o Vs(gx) \o Vs(gz), 2 * n) = i.G, "C16.encoding-gauge")
             \cup If(\A j \in 1..g : gx[j].s = 0 /\ gz[j].s = 0, "C16.encoding-gauge-sign")
             \cup If(Canonical(2, Vs(xs) \o Vs(zs), n), "C16.encoding-not-clifford")
Units(n) == TLCEval([j \in 1..n |-> Unit(n, j)])
UnitsZ(n) == TLCEval([j \in 1..n |-> Unit(n, n + j)])
EncClauses(o, e) ==
    IF o.info.q # 2 THEN Rejects(e)
    ELSE IF e.exc # "" THEN {"C16.encoding-raises"}
    ELSE IF ~Known(o) \/ o.L[1] = e.L
    THEN LET n == o.info.n IN
         IF e.via = "circuit"
         THEN IF ~GatesOK(n, e.gates) THEN {"C16.encoding-circuit-gates"}
              ELSE EncodingClauses(o, e.L, Images(n, e.gates, Units(n)), Images(n, e.gates, UnitsZ(n)))
         ELSE EncodingClauses(o, e.L, e.xs, e.zs)
    ELSE {"C07.logical-changed"}

(* ---- logical action ---------------------------------------------------------------------------- *)
\* ops implement the logical tableau T on the code with logical operators L, whose stabilizers (with signs) are R
Implements(n, k, L, R, ops, T) ==
    \A j \in 1..2 * k : PIn(n, R, PMul(n, ImageOf(n, ops, Plus(n, L[j])), Logical(n, k, L, T[j])))
ApplyOps(n, ops, v) == SignedCircuit(n, ops, [s |-> 0, v |-> v]).v
\* the stabilizers zs (signed) are preserved by the circuit
Phases(n, As) == TLCEval([i \in 1..Len(As) |-> Phased(n, As[i].s, As[i].v)])
PreservesState(n, R, ops, zs) == \A i \in 1..Len(zs) : PIn(n, R, ImageOf(n, ops, Phased(n, zs[i].s, zs[i].v)))
MapsInto(n, ops, A, B) == \A i \in 1..Len(A) : InRowSpace(2, B, ApplyOps(n, ops, A[i]))
\* the images of the logical qubits under the gates of the decoded frame that act on them alone
InRange(t, k) == \A i \in 1..Len(t) : t[i] <= k
LogicalPart(ops, k) == SelectSeq(ops, LAMBDA x : InRange(x.t, k))
TOf(k, ops) == Images(k, ops, Units(k)) \o Images(k, ops, UnitsZ(k))
TabClauses(o, e) ==
    LET i == o.info  n == i.n  k == i.k IN
    IF e.exc = "skip" THEN {}
    ELSE IF e.exc # "" THEN {"C16.logical-tableau-raises"}
    ELSE IF ~SignedRect(e.T, 2 * k, k) THEN {"C16.logical-tableau-shape"}
    ELSE LET R == IF e.deform THEN << >> ELSE PBasis(n, Phases(n, e.sz))
         IN  If(e.T = TOf(k, LogicalPart(e.ops, k)), "C16.logical-tableau")
             \cup If(~GatesOK(n, e.gates) \/ Implements(n, k, e.L, R, e.gates, e.T), "C16.logical-action")

(* ---- transversal circuits ------------------------------------------------------------------------ *)
GSetOf(gs) == IF gs = <<"default">> THEN {"S", "H", "SWAP"} ELSE {gs[i] : i \in 1..Len(gs)}
GoodGates(gs) == GSetOf(gs) \subseteq {"S", "H", "SQRT_X", "SWAP"}
\* claims about one transversal circuit with its logical tableau (T: exact, including signs)
OpClauses(o, e, ops, T, dz) ==
    LET i == o.info  n == i.n  k == i.k  G == GSetOf(e.gates) IN
    IF ~GatesOK(n, ops) \/ ~SignedRect(T, 2 * k, k) THEN {"C16.transversal-shape"}
    ELSE LET R0 == PBasis(n, Phases(n, e.sz))
             R1 == PBasis(n, TLCEval([j \in 1..Len(e.sz) |-> ImageOf(n, ops, Phased(n, e.sz[j].s, e.sz[j].v))]))
         IN  If(IsTransversal(n, G, ops), "C16.transversal-gate-set")
             \cup (IF e.deform
                   THEN If(\A a \in 1..Len(i.G), b \in 1..2 * k : Symp(2, ApplyOps(n, ops, i.G[a]), e.L[b], n) = 0, "C16.deformed-logicals")
                        \cup If(SignedRect(dz, Len(i.S), n) /\ \A j \in 1..Len(dz) : PIn(n, R1, Phased(n, dz[j].s, dz[j].v)), "C16.deformed-code-space")
                        \cup If(Implements(n, k, e.L, R1, ops, T), "C16.transversal-action")
                   ELSE If(PreservesState(n, R0, ops, e.sz), "C16.transversal-code-space")
                        \cup If(MapsInto(n, ops, i.G, i.G), "C16.transversal-gauge")
                        \cup If(Implements(n, k, e.L, R0, ops, T), "C16.transversal-action"))
Brute(o, e) == LET n == o.info.n  G == GSetOf(e.gates)
                   perms == IF "SWAP" \in G THEN FoldLeft(LAMBDA a, j : a * j, 1, Idx[n]) ELSE 1
                   c == Cardinality(LocalSet(G))
               IN  perms * c ^ n <= 1300
Elts(o, e) == Preserving(o.info.n, GSetOf(e.gates), IF e.deform THEN e.L ELSE o.info.G)
SameModPauli(A, B) == Vs(A) = Vs(B)
IsPauliT(T, k) == Vs(T) = Identity(2 * k)
TransClauses(o, e) ==
    IF o.info.q # 2 THEN Rejects(e)
    ELSE IF ~GoodGates(e.gates) THEN If(e.exc = "ValueError", "C16.accepts-bad-gates")
    ELSE IF e.exc # "" THEN {"C16.transversal-raises"}
    ELSE UNION {OpClauses(o, e, e.found[j].gates, e.found[j].T, e.found[j].dz) : j \in 1..Len(e.found)}
         \cup If(e.redundant \/ \A a \in 1..Len(e.found) : ~IsPauliT(e.found[a].T, o.info.k) /\ \A b \in 1..a-1 : ~SameModPauli(e.found[a].T, e.found[b].T), "C16.transversal-redundant")
         \cup (IF ~Brute(o, e) THEN {} ELSE If(e.order = Cardinality(Elts(o, e)), "C16.transversal-group-order"))
\* some transversal operation acts on the logical operators as T does, up to Paulis
Possible(o, e, T) ==
    LET i == o.info  n == i.n  k == i.k
        S == SpanSet(2, IF e.deform THEN << >> ELSE i.S, 2 * n)
        want == TLCEval([j \in 1..2 * k |-> Logical(n, k, e.L, T[j]).v])
    IN  \E f \in Elts(o, e) : \A j \in 1..2 * k : VAdd(2, Transversal(n, f[1], f[2], e.L[j]), want[j]) \in S
FindClauses(o, e) ==
    IF o.info.q # 2 THEN Rejects(e)
    ELSE IF ~GoodGates(e.gates) THEN If(e.exc = "ValueError", "C16.accepts-bad-gates")
    ELSE IF e.exc # "" THEN {"C16.transversal-raises"}
    ELSE IF Len(e.res) # Len(e.want) THEN {"C16.transversal-answers"}
    ELSE UNION {LET r == e.res[j] w == e.want[j] IN
                IF r.none THEN (IF ~Brute(o, e) THEN {} ELSE If(~Possible(o, e, w), "C16.transversal-missed"))
                ELSE OpClauses(o, e, r.gates, w, r.dz)
                : j \in 1..Len(e.want)}
         \cup If(\A j \in 1..Len(e.want) : e.req[j].t = "gates" => e.want[j] = TOf(o.info.k, e.req[j].ops), "C16.transversal-answers")

COps == {"enc", "tab", "trans", "find"}
CheckC(s, e) ==
    IF e.op \notin COps THEN CheckEvent(s, e)
    ELSE IF ~s[e.o].ok THEN {}
    ELSE IF e.mut # << >> THEN {"C07.result-changed"}
    ELSE CASE e.op = "enc" -> EncClauses(s[e.o], e) [] e.op = "tab" -> TabClauses(s[e.o], e)
           [] e.op = "trans" -> TransClauses(s[e.o], e) [] e.op = "find" -> FindClauses(s[e.o], e)
AfterC(s, e) == IF e.op \notin COps THEN AfterEvent(s, e)
                ELSE IF s[e.o].ok /\ e.exc = "" THEN Learn(s, e.o, e.L) ELSE s
CC == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterC, Bad <- CheckC
SpecC == CC!Spec
===============================================================================
