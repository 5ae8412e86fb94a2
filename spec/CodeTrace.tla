------------------------------- MODULE CodeTrace -------------------------------
(***************************************************************************)
(* The meaning of the actions of CodeSession, as a relation between the    *)
(* abstract state of the codes and what the implementation is observed to  *)
(* return.  Abstract state: a sequence of codes                            *)
(*   [ok, info (see CodeInfo), css, L]                                     *)
(* where L is << >> while the user has not learned or chosen the code's    *)
(* logical operators, and <<matrix>> afterwards: from then on the code     *)
(* must keep answering with that matrix until it is replaced or            *)
(* recomputed.  Bad(st, e) is the set of clauses that event e breaks;      *)
(* clauses are named <property>.<what>.                                    *)
(***************************************************************************)
EXTENDS Distance, TraceFile

CONSTANTS Lanes
VARIABLES cs, ix, st

Rows(A) == {A[i] : i \in 1..Len(A)}
If(cond, name) == IF cond THEN {} ELSE {name}
Built(e) == e.exc = "" /\ ~e.skip
NoCode == [ok |-> FALSE]
MakeOps == {"new", "newcss", "stack", "concat", "conj", "deform", "dual", "canon"}
WellFormed(e) == Rect(e.q, e.m, 2 * e.n)
Obj(e, L) == [ok |-> TRUE, info |-> CodeInfo(e.q, e.n, e.m), css |-> e.css, L |-> L]
Halves(A, k) == <<SubSeq(A, 1, k), SubSeq(A, k + 1, 2 * k)>>
\* the symplectic half of `full` for pauli p, expressed as the getter does (CSS: n columns unless asked)
HalfOf(full, css, p, symp, n) ==
    LET k == Len(full) \div 2
        h == IF p = "X" THEN Halves(full, k)[1] ELSE Halves(full, k)[2]
    IN  IF css /\ ~symp
        THEN TLCEval([i \in 1..k |-> IF p = "X" THEN XPart(h[i], n) ELSE ZPart(h[i], n)])
        ELSE h
CSSTyped(full, n) == LET k == Len(full) \div 2 IN AllX(Halves(full, k)[1], n) /\ AllZ(Halves(full, k)[2], n)
Expand(v, p, n) == IF Len(v) = 2 * n THEN v ELSE IF p = "X" THEN v \o ZeroVec(n) ELSE ZeroVec(n) \o v

(* ---- expected results of derivations --------------------------------------- *)
Image(M, F(_)) == TLCEval([i \in 1..Len(M) |-> F(M[i])])
Offsets(ns) == TLCEval([i \in 1..Len(ns) |-> FoldLeft(LAMBDA a, j : a + ns[j], 0, Idx[i - 1])])
\* rows of the codes Ms (lengths ns) placed on consecutive blocks of sites
Stacked(Ms, ns) ==
    LET off == Offsets(ns)
        N == FoldLeft(LAMBDA a, x : a + x, 0, ns)
    IN  FoldLeft(LAMBDA acc, i : acc \o TLCEval([r \in 1..Len(Ms[i]) |-> Embed(Ms[i][r], ns[i], Shifted(ns[i], off[i]), N)]),
                 << >>, Idx[Len(Ms)])
\* logical operators of the stack: all X-type, then all Z-type
StackedL(Ls, ns) ==
    Stacked([i \in 1..Len(Ls) |-> Halves(Ls[i], Len(Ls[i]) \div 2)[1]], ns)
    \o Stacked([i \in 1..Len(Ls) |-> Halves(Ls[i], Len(Ls[i]) \div 2)[2]], ns)
Copies(x, m) == TLCEval([i \in 1..m |-> x])
\* site p of the outer operator v (N sites) becomes inner logical qudit w[p] (1-based)
Rewrite(q, v, N, w, L, n2) ==
    FoldLeft(LAMBDA acc, p :
                VAxpy(q, v[p], L[w[p]], VAxpy(q, v[N + p], L[w[p] + Len(L) \div 2], acc)),
             ZeroVec(2 * n2), Idx[N])
Wiring(e, k, no) == IF e.how = "default" THEN TLCEval([p \in 1..k*no |-> ((p - 1) % no) * k + (p - 1) \div no + 1]) ELSE e.w
ConcatData(e, A, B, La, Lb) ==
    LET w == Wiring(e, A.k, B.n)
        N == Len(w)
        ni == N \div A.k
        no == N \div B.n
        nn == ni * A.n
        Li == StackedL(Copies(La, ni), Copies(A.n, ni))
        Mo == Stacked(Copies(B.M, no), Copies(B.n, no))
        Lo == StackedL(Copies(Lb, no), Copies(B.n, no))
    IN  [n |-> nn,
         M |-> Stacked(Copies(A.M, ni), Copies(A.n, ni)) \o Image(Mo, LAMBDA v : Rewrite(A.q, v, N, w, Li, nn)),
         L |-> Image(Lo, LAMBDA v : Rewrite(A.q, v, N, w, Li, nn))]
SiteSet(Q) == {Q[i] : i \in 1..Len(Q)}
ConjF(info, Q, M) == Image(M, LAMBDA v : Fourier(info.q, v, info.n, Q))
ConjB(info, Q, M) == Image(M, LAMBDA v : InvFourier(info.q, v, info.n, Q))
Deformed(info, ops, M) == Image(M, LAMBDA v : ApplyCircuit(v, info.n, ops))

(* ---- clauses ----------------------------------------------------------------- *)
Owner(op) == CASE op \in {"logical", "stab", "gauge", "setl", "dual", "reduce", "sform"} -> "C01"
               [] op \in {"dims", "new", "newcss", "canon"} -> "C02"
               [] op \in {"dist", "distb"} -> "C03"
               [] op \in {"stack", "concat"} -> "C05"
               [] op \in {"conj", "deform"} -> "C06"
               [] op = "trip" -> "C15"
               [] OTHER -> "C07"
\* a code has a standard form only if its gauge operators add gauge_dimension to the rank of the X part
RankX(q, A, n) == Len(RREF(q, Image(A, LAMBDA v : XPart(v, n)), n))
HasForm(i) == ~i.sub \/ RankX(i.q, i.G, i.n) = RankX(i.q, i.S, i.n) + i.g
\* documented refusals: preserving invalid logical operators, a standard form that does not exist
MayRaise(s, e) == \/ e.op = "deform" /\ e.preserve /\ s[e.o].info.k > 0
                  \/ e.op = "sform" /\ ~HasForm(s[e.o].info)
Raised(s, e) ==
    IF e.exc = "" \/ MayRaise(s, e) THEN {}
    ELSE {Owner(e.op) \o ".raises"} \cup (IF e.freshok THEN {"C07.history-raises"} ELSE {})

Known(o) == o.L # << >>
StableL(o, L) == If(~Known(o) \/ o.L[1] = L, "C07.logical-changed")
Learn(s, o, L) == IF s[o].ok THEN [s EXCEPT ![o].L = <<L>>] ELSE s

LogicalClauses(o, e) ==
    LET info == o.info IN
    IF ~IsMat(info.q, e.full, 2 * info.k, 2 * info.n) THEN {"C01.logical-shape"}
    ELSE If(ValidLogicals(info, e.full), "C01.logical-structure")
         \cup If(o.css => CSSTyped(e.full, info.n), "C01.logical-css-type")
         \cup If(e.r = IF e.pauli = "" THEN e.full ELSE HalfOf(e.full, o.css, e.pauli, e.symp, info.n), "C01.logical-half")
         \cup If(e.fieldok, "C01.field")
         \cup (IF e.recompute THEN {} ELSE StableL(o, e.full))
StabClauses(o, e) ==
    LET info == o.info n == info.n q == info.q IN
    If(e.fieldok, "C01.field") \cup
    IF e.pauli = ""
    THEN IF ~Rect(q, e.r, 2 * n) THEN {"C01.stab-shape"}
         ELSE If(RREF(q, e.r, 2 * n) = info.S, "C01.stab-group")
              \cup If(e.canon => e.r = info.S, "C01.stab-canonical")
    ELSE LET w == IF o.css /\ ~e.symp THEN n ELSE 2 * n IN
         IF ~(Rect(q, e.x, w) /\ Rect(q, e.z, w)) THEN {"C01.stab-shape"}
         ELSE LET X == Image(e.x, LAMBDA v : Expand(v, "X", n))
                  Z == Image(e.z, LAMBDA v : Expand(v, "Z", n))
              IN  If(RREF(q, X \o Z, 2 * n) = info.S, "C01.stab-half-group")
                  \cup If(o.css => AllX(X, n) /\ AllZ(Z, n), "C01.stab-half-type")
                  \cup If(AllZ(Z, n), "C01.stab-half-type") 
                  \cup If(e.canon => Len(X) + Len(Z) = info.s, "C01.stab-half-canonical")
GaugeClauses(o, e) ==
    LET info == o.info IN
    IF ~IsMat(info.q, e.full, 2 * info.g, 2 * info.n) THEN {"C01.gauge-shape"}
    ELSE If(ValidGauges(info, e.full), "C01.gauge-structure")
         \cup If(o.css => CSSTyped(e.full, info.n), "C01.gauge-css-type")
         \cup If(e.r = IF e.pauli = "" THEN e.full ELSE HalfOf(e.full, o.css, e.pauli, e.symp, info.n), "C01.gauge-half")
         \cup If(e.fieldok, "C01.field")
DimClauses(o, e) ==
    LET i == o.info IN
    If(e.n = i.n, "C02.length") \cup If(e.k = i.k, "C02.dimension") \cup If(e.g = i.g, "C02.gauge-dimension")
    \cup If(e.rank = i.rank, "C02.rank") \cup If(e.sub = i.sub, "C02.subsystem")
    \cup If(e.checks = Len(i.M), "C02.num-checks")
    \cup If(e.weight = FoldLeft(LAMBDA a, r : IF SWeight(r, i.n) > a THEN SWeight(r, i.n) ELSE a, 0, i.M), "C02.weight")
Unknown == -9
DistClauses(o, e) ==
    LET d == QuantumDistance(o.info, IF e.half THEN e.pauli ELSE "") IN
    If(e.d = d, "C03.exact") \cup If(e.params = <<o.info.n, o.info.k>>, "C02.code-params")
    \cup If(e.known0 \in {Unknown, d} /\ e.known1 \in {Unknown, d}, "C03.known")
    \* right or wrong, what is remembered from earlier queries is what is answered now and later
    \cup If(e.known0 \in {Unknown, e.d} /\ e.known1 \in {Unknown, e.d}, "C07.remembered")
DistBClauses(o, e) ==
    LET d == QuantumDistance(o.info, IF e.half THEN e.pauli ELSE "") IN If(e.d >= d /\ e.d <= o.info.n, "C03.bound")
SetClauses(o, e) ==
    LET ok == ValidLogicals(o.info, e.new) IN
    StableL(o, e.before)
    \cup If(e.ok => ok, "C01.set-accepts-invalid")
    \cup If(ok => e.ok, "C01.set-rejects-valid")
\* no operator of the same type does what the r-th logical operator does with less weight
Lightest(info, L, r, pauli) ==
    LET n == info.n q == info.q
        Wide(v) == IF pauli = "X" THEN v \o ZeroVec(n) ELSE ZeroVec(n) \o v
        Same(w) == /\ \A i \in 1..Len(info.M) : Symp(q, info.M[i], w, n) = 0
                   /\ \A j \in 1..Len(L) : j # r => Symp(q, L[j], w, n) = Symp(q, L[j], L[r], n)
    IN  \A v \in [1..n -> 0..q-1] : Cardinality({i \in 1..n : v[i] # 0}) < SWeight(L[r], n) => ~Same(Wide(v))
ReduceClauses(o, e) ==
    LET info == o.info IN
    StableL(o, e.before) \cup
    IF ~IsMat(info.q, e.after, 2 * info.k, 2 * info.n) THEN {"C01.reduce-shape"}
    ELSE LET off == IF e.pauli = "X" THEN 0 ELSE info.k
             rows == IF e.pauli = "" THEN 1..2*info.k ELSE IF e.idx = 0 THEN off+1..off+info.k ELSE {off + e.idx} IN
         If(ValidLogicals(info, e.after), "C01.reduce-structure")
         \cup If(CSSTyped(e.after, info.n), "C01.reduce-css-type")
         \cup If(\A i \in (1..2*info.k) \ rows : e.after[i] = e.before[i], "C01.reduce-others")
         \cup If(e.dec = "ilp" => \A r \in rows : SWeight(e.after[r], info.n) <= SWeight(e.before[r], info.n), "C01.reduce-weight")
         \cup If(e.dec = "ilp" /\ e.pauli # "" /\ info.q ^ info.n <= 260 => \A r \in rows : Lightest(info, e.after, r, e.pauli), "C01.reduce-lightest")
NewClauses(e) ==
    LET want == IF e.op = "new" THEN IF e.in = << >> THEN << >> ELSE e.in
                ELSE e.in
    IN  If(e.m = want, "C02.checks-as-given")
MatClause(e, want, name) == If(Len(e.m) = Len(want) /\ Rows(e.m) = Rows(want), name)
StackClauses(s, e) ==
    LET infos == [i \in 1..Len(e.os) |-> s[e.os[i]].info]
        ns == TLCEval([i \in 1..Len(e.os) |-> infos[i].n])
        Ms == [i \in 1..Len(e.os) |-> infos[i].M]
    IN  MatClause(e, Stacked(Ms, ns), "C05.stack-checks")
        \cup UNION {If(ValidLogicals(infos[i], e.L[i]), "C05.input-logicals") \cup
                    (IF Known(s[e.os[i]]) /\ s[e.os[i]].L[1] # e.L[i] THEN {"C05.input-changed", "C07.logical-changed"} ELSE {})
                    : i \in 1..Len(e.os)}
StackL(s, e) == IF e.inherit THEN <<StackedL(e.L, TLCEval([i \in 1..Len(e.os) |-> s[e.os[i]].info.n]))>> ELSE << >>
ConcatClauses(s, e) ==
    LET A == s[e.i].info B == s[e.o].info IN
    (IF Known(s[e.i]) /\ s[e.i].L[1] # e.L[1] THEN {"C05.input-changed", "C07.logical-changed"} ELSE {})
    \cup (IF Known(s[e.o]) /\ s[e.o].L[1] # e.L[2] THEN {"C05.input-changed", "C07.logical-changed"} ELSE {})
    \cup (IF ~ValidLogicals(A, e.L[1]) \/ ~ValidLogicals(B, e.L[2]) THEN {"C05.input-logicals"}
          ELSE LET D == ConcatData(e, A, B, e.L[1], e.L[2]) IN
               IF e.n # D.n THEN {"C05.concat-length"} ELSE MatClause(e, D.M, "C05.concat-checks"))
ConcatL(s, e) == IF ~e.inherit THEN << >>
                 ELSE <<ConcatData(e, s[e.i].info, s[e.o].info, e.L[1], e.L[2]).L>>
ConjClauses(o, e) == If(e.m = ConjF(o.info, SiteSet(e.Q), o.info.M) \/ e.m = ConjB(o.info, SiteSet(e.Q), o.info.M), "C06.conjugated-checks")
ConjL(o, e) == IF ~Known(o) THEN << >>
               ELSE IF e.m = ConjF(o.info, SiteSet(e.Q), o.info.M) THEN <<ConjF(o.info, SiteSet(e.Q), o.L[1])>>
               ELSE <<ConjB(o.info, SiteSet(e.Q), o.L[1])>>
DeformClauses(o, e) ==
    LET D == Deformed(o.info, e.ops, o.info.M)
        child == CodeInfo(o.info.q, o.info.n, D)
    IN  IF e.exc # ""
        THEN (IF e.preserve /\ Known(o) /\ ValidLogicals(child, o.L[1]) THEN {"C06.preserve-refused"} ELSE {})
        ELSE If(e.m = D, "C06.deformed-checks")
             \cup (IF ~e.preserve THEN {} ELSE StableL(o, e.L) \cup If(ValidLogicals(child, e.L), "C06.preserve-invalid"))
DeformL(o, e) == IF e.preserve THEN <<e.L>> ELSE IF Known(o) THEN <<Deformed(o.info, e.ops, o.L[1])>> ELSE << >>
DualClauses(o, e) ==
    LET i == o.info IN
    StableL(o, e.L)
    \cup If(ValidLogicals(i, e.L) => RREF(i.q, e.m, 2 * i.n) = RREF(i.q, i.S \o e.L, 2 * i.n), "C01.dual-group")
CanonClauses(o, e) == If(RREF(o.info.q, e.m, 2 * o.info.n) = o.info.G /\ Len(e.m) = o.info.rank, "C02.canonical-checks")
                      \cup If(e.css = o.css, "C02.canonical-class")
(* ---- standard form ------------------------------------------------------------
   Rows and columns of a check matrix split into sectors, with identities where the pivots of a
   sector meet its rows and zeros below and before them, wherever HasForm. *)
Joined(parts) == FoldLeft(LAMBDA a, x : a \o x, << >>, parts)
Arranges(sq, n) == Len(sq) = n /\ {sq[j] : j \in 1..Len(sq)} = 1..n
IdentityAt(m, rs, cols, off) ==
    Len(rs) = Len(cols) /\ \A a, b \in 1..Len(rs) : m[rs[a]][cols[b] + off] = IF a = b THEN 1 ELSE 0
ZeroAt(m, rs, cols, off) == \A a \in 1..Len(rs) : \A b \in 1..Len(cols) : m[rs[a]][cols[b] + off] = 0
FormClauses(o, e) ==
    LET i == o.info n == i.n m == e.m R == e.rows C == e.cols IN
    IF ~HasForm(i) THEN {}
    ELSE IF ~(Rect(i.q, m, 2 * n) /\ Arranges(Joined(R), Len(m)) /\ Arranges(e.locs, n)
              /\ Arranges(C[1] \o C[4] \o C[2] \o C[3], n) /\ Arranges(C[1] \o C[4] \o C[5] \o C[6], n))
    THEN {"C01.form-sectors"}
    ELSE If(RREF(i.q, m, 2 * n) = i.G, "C01.form-group")
         \cup If(Len(C[3]) = i.k /\ Len(C[6]) = i.k /\ Len(R[2]) = i.g /\ Len(R[4]) = i.g /\ Len(R[1]) + Len(R[3]) = i.s, "C01.form-sizes")
         \cup If(IdentityAt(m, R[1], C[1], 0) /\ IdentityAt(m, R[2], C[2], 0)
                 /\ IdentityAt(m, R[3], C[4], n) /\ IdentityAt(m, R[4], C[5], n), "C01.form-identities")
         \cup If(ZeroAt(m, R[2], C[1], 0) /\ ZeroAt(m, R[3] \o R[4], Idx[n], 0) /\ ZeroAt(m, R[4], C[4], n), "C01.form-zeros")
         \cup If(RREF(i.q, Image(R[1] \o R[3], LAMBDA r : m[r]), 2 * n) = i.S, "C01.form-stabilizers")
TripClauses(o, e) == If(e.q = o.info.q /\ e.n = o.info.n /\ e.m = o.info.M, "C15.trip-" \o e.via)

Shape(e) == If(e.op \in MakeOps => WellFormed(e), Owner(e.op) \o ".malformed")
CheckEvent(s, e) ==
    LET mut == If(e.mut = << >>, "C07.mutated") IN
    IF e.skip THEN mut
    ELSE IF e.exc # "" THEN mut \cup Raised(s, e) \cup (IF e.op = "deform" THEN DeformClauses(s[e.o], e) ELSE {})
    ELSE IF Shape(e) # {} THEN mut \cup Shape(e)
    ELSE mut \cup
      CASE e.op \in {"new", "newcss"} -> NewClauses(e)
        [] e.op = "logical" -> LogicalClauses(s[e.o], e)
        [] e.op = "stab" -> StabClauses(s[e.o], e)
        [] e.op = "gauge" -> GaugeClauses(s[e.o], e)
        [] e.op = "dims" -> DimClauses(s[e.o], e)
        [] e.op = "dist" -> DistClauses(s[e.o], e)
        [] e.op = "distb" -> DistBClauses(s[e.o], e)
        [] e.op = "setl" -> SetClauses(s[e.o], e)
        [] e.op = "reduce" -> ReduceClauses(s[e.o], e)
        [] e.op = "stack" -> StackClauses(s, e)
        [] e.op = "concat" -> ConcatClauses(s, e)
        [] e.op = "conj" -> ConjClauses(s[e.o], e)
        [] e.op = "deform" -> DeformClauses(s[e.o], e)
        [] e.op = "dual" -> DualClauses(s[e.o], e)
        [] e.op = "canon" -> CanonClauses(s[e.o], e)
        [] e.op = "sform" -> FormClauses(s[e.o], e)
        [] e.op = "trip" -> TripClauses(s[e.o], e)

\* operators inherited by derived codes must satisfy what computed ones do; if they do not, the
\* derived code starts without known operators (the failure was reported at the source)
NewObj(s, e) ==
    IF ~Built(e) \/ ~WellFormed(e) THEN NoCode
    ELSE LET L == CASE e.op = "stack" -> StackL(s, e)
                    [] e.op = "concat" -> IF ConcatClauses(s, e) = {} THEN ConcatL(s, e) ELSE << >>
                    [] e.op = "conj" -> ConjL(s[e.o], e)
                    [] e.op = "deform" -> DeformL(s[e.o], e)
                    [] OTHER -> << >>
         IN  Obj(e, L)
AfterEvent(s, e) ==
    IF e.op \in MakeOps
    THEN LET s1 == IF ~Built(e) THEN s
                   ELSE CASE e.op = "stack" -> FoldLeft(LAMBDA acc, i : Learn(acc, e.os[i], e.L[i]), s, Idx[Len(e.os)])
                          [] e.op = "concat" -> Learn(Learn(s, e.i, e.L[1]), e.o, e.L[2])
                          [] e.op = "deform" -> IF e.preserve THEN Learn(s, e.o, e.L) ELSE s
                          [] e.op = "dual" -> Learn(s, e.o, e.L)
                          [] OTHER -> s
         IN  Append(s1, NewObj(s, e))
    ELSE IF ~Built(e) THEN s
    ELSE CASE e.op = "logical" -> Learn(s, e.o, e.full)
           [] e.op = "setl" -> Learn(s, e.o, IF e.ok THEN e.new ELSE e.before)
           [] e.op = "reduce" -> Learn(s, e.o, e.after)
           [] OTHER -> s

Start(case) == << >>
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
================================================================================
