----------------------------- MODULE ProductTrace -----------------------------
(* The defining formulas of product constructions, and what theory predicts.   *)
EXTENDS GroupRing, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
S == INSTANCE Stab
If(cond, name) == IF cond THEN {} ELSE {name}
I(n) == Identity(n)
NegM(q, A) == TLCEval([i \in 1..Len(A) |-> VNeg(q, A[i])])
---------------------------------------------------------------------------
\* two-block
TBX(q, A, B) == HCat(A, B)
TBZ(q, A, B, n) == HCat(Transpose(B, n), NegM(q, Transpose(A, n)))
\* quasi-cyclic: each monomial shifts row (a, b, ..) to column (a + i, b + j, ..)
Total(orders) == FoldLeft(LAMBDA acc, i : acc * orders[i], 1, Idx[Len(orders)])
Coord(orders, k, s) == LET inner == FoldLeft(LAMBDA acc, i : IF i > s THEN acc * orders[i] ELSE acc, 1, Idx[Len(orders)]) IN (k \div inner) % orders[s]
Unravel(orders, v) == FoldLeft(LAMBDA acc, s : acc * orders[s] + v[s], 0, Idx[Len(orders)])
Shift(orders, k, exps) == Unravel(orders, TLCEval([s \in 1..Len(orders) |-> (Coord(orders, k, s) + (IF s <= Len(exps) THEN exps[s] ELSE 0) + 4 * orders[s]) % orders[s]]))
PolyMat(q, orders, poly) ==
    LET N == Total(orders) IN
    TLCEval([r \in 1..N |-> FoldLeft(LAMBDA acc, t : LET c == Shift(orders, r - 1, poly[t][2]) + 1 IN [acc EXCEPT ![c] = Add(q, @, poly[t][1])], ZeroVec(N), Idx[Len(poly)])])
\* the exponents of the script refer to symbols x, y, z; orders may be assigned to them in another order
Permuted(poly, order) == TLCEval([t \in 1..Len(poly) |-> <<poly[t][1], TLCEval([s \in 1..Len(order) |-> poly[t][2][order[s]]])>>])
---------------------------------------------------------------------------
HX(q, A, m1, n1, B, m2, n2) == HCat(Kron(q, A, n1, I(n2), n2), Kron(q, I(m1), m1, Transpose(B, n2), m2))
HZ(q, A, m1, n1, B, m2, n2) == HCat(NegM(q, Kron(q, I(n1), n1, B, n2)), Kron(q, Transpose(A, n1), m1, I(m2), m2))
SX(q, A, n1, n2) == Kron(q, A, n1, I(n2), n2)
SZ(q, n1, B, n2) == Kron(q, I(n1), n1, B, n2)
\* the same over a group algebra
RI(R, n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN ROne(R) ELSE RZero(R)])])
RKron(R, A, na, B, nb) == TLCEval([r \in 1..(Len(A) * Len(B)) |-> TLCEval([c \in 1..(na * nb) |->
         RMul(R, A[((r-1) \div Len(B)) + 1][((c-1) \div nb) + 1], B[((r-1) % Len(B)) + 1][((c-1) % nb) + 1])])])
RNeg(R, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> VNeg(R.q, A[i][j])])])
LiftOf(R, L, d, x) == TLCEval(FoldLeft(LAMBDA acc, i : IF x[i] = 0 THEN acc ELSE TLCEval([r \in 1..d |-> VAxpy(R.q, x[i], L[i][r], acc[r])]), ZeroMat(d, d), Idx[R.n]))
LiftMat(R, L, d, A) == FoldLeft(LAMBDA acc, i : acc \o LET row == TLCEval([j \in 1..Len(A[i]) |-> LiftOf(R, L, d, A[i][j])]) IN
                          TLCEval([r \in 1..d |-> FlatRow(TLCEval([j \in 1..Len(row) |-> row[j][r]]))]), << >>, Idx[Len(A)])
\* recorded lifts of the members form an orthogonal representation
Rep(R, L, d) == /\ \A i \in 1..R.n : Len(L[i]) = d /\ \A r \in 1..d : Len(L[i][r]) = d /\ \A c \in 1..d : L[i][r][c] \in 0..R.q-1
                /\ \A i, j \in 1..R.n : MatMul(R.q, L[i], L[j], d) = L[R.mul[i][j]]
                /\ \A i \in 1..R.n : L[R.inv[i]] = Transpose(L[i], d)
---------------------------------------------------------------------------
Rect(q, A, w) == \A i \in 1..Len(A) : Len(A[i]) = w /\ \A j \in 1..w : A[i][j] \in 0..q-1
\* symplectic parity checks of a CSS code
Sympl(X, Z, n) == TLCEval([i \in 1..Len(X) + Len(Z) |-> IF i <= Len(X) THEN X[i] \o ZeroVec(n) ELSE ZeroVec(n) \o Z[i - Len(X)]])
\* everything promised about a code with the given checks
Promises(e, X, Z, n, sub) ==
    IF ~(e.X_ = X /\ e.Z_ = Z) THEN {"C13." \o e.op \o "-checks"}
    ELSE LET info == S!CodeInfo(e.q, n, Sympl(X, Z, n)) IN
         If(e.n_ = n /\ e.q_ = e.q, "C13." \o e.op \o "-size")
         \cup (IF sub THEN {} ELSE If(AllZero(MulT(e.q, X, Z)), "C13." \o e.op \o "-commute"))
         \cup If(e.k_ = info.k, "C13." \o e.op \o "-dimension")
         \cup If(e.k2_ = info.k /\ e.g_ = info.g, "C13." \o e.op \o "-dimension-recomputed")
         \cup If(IF S!ValidLogicals(info, e.L) THEN S!AllX(SubSeq(e.L, 1, info.k), n) /\ S!AllZ(SubSeq(e.L, info.k + 1, 2 * info.k), n) ELSE FALSE, "C13." \o e.op \o "-logicals")
         \cup If(Rect(e.q, e.S, 2 * n) /\ RREF(e.q, e.S, 2 * n) = info.S, "C13." \o e.op \o "-stabilizers")
         \cup If(e.sub = info.sub, "C13." \o e.op \o "-subsystem")
\* minimum weight of a nonzero word of the code with checks A (-1: no such word)
MinW(q, A, n) == LET W == {Weight(v) : v \in SpanSet(q, NullSpace(q, A, n), n)} \ {0} IN IF W = {} THEN -1 ELSE CHOOSE w \in W : \A x \in W : w <= x
Range01(a, b) == TLCEval([i \in 1..(b - a) |-> a + i - 1])
CheckEvent(s, e) ==
    IF e.skip THEN {}
    ELSE
     CASE e.op = "tb" -> IF MatMul(e.q, e.A, e.B, e.n) # MatMul(e.q, e.B, e.A, e.n) THEN If(e.exc = "ValueError", "C13.tb-accepts")
             ELSE IF e.exc # "" THEN {"C13.raises-tb"} ELSE Promises(e, TBX(e.q, e.A, e.B), TBZ(e.q, e.A, e.B, e.n), 2 * e.n, FALSE)
       [] e.op = "qc" -> IF e.exc # "" THEN {"C13.raises-qc"}
             ELSE LET A == PolyMat(e.q, e.orders, Permuted(e.pa, e.order)) B == PolyMat(e.q, e.orders, Permuted(e.pb, e.order)) n == Total(e.orders) IN
                  Promises(e, TBX(e.q, A, B), TBZ(e.q, A, B, n), 2 * n, FALSE)
       [] e.op = "bbclash" -> If(e.exc = "ValueError", "C13.bb-accepts")
       [] e.op = "hgp" -> IF e.exc # "" THEN {"C13.raises-hgp"}
             ELSE LET X == HX(e.q, e.A, e.m1, e.n1, e.B, e.m2, e.n2) Z == HZ(e.q, e.A, e.m1, e.n1, e.B, e.m2, e.n2)
                      rA == Rank(e.q, e.A, e.n1) rB == Rank(e.q, e.B, e.n2) n == e.n1 * e.n2 + e.m1 * e.m2 IN
                  Promises(e, X, Z, n, FALSE)
                  \cup If(e.k_ = (e.n1 - rA) * (e.n2 - rB) + (e.m1 - rA) * (e.m2 - rB), "C13.hgp-predicted-dimension")
                  \cup If(e.sectors = <<<<e.n1 * e.n2, e.n1 * e.m2>>, <<e.m1 * e.n2, e.m1 * e.m2>>>>, "C13.hgp-sectors")
                  \cup If(e.conj = Range01(e.n1 * e.n2, n), "C13.hgp-conjugated-sector")
                  \cup (IF e.graphed THEN If(e.G = Sympl(X, Z, n), "C13.hgp-graph-product") ELSE {})
       [] e.op \in {"shp", "shyps"} -> IF e.exc # "" THEN {"C13.raises-" \o e.op}
             ELSE LET X == SX(e.q, e.A, e.n1, e.n2) Z == SZ(e.q, e.n1, e.B, e.n2) k1 == e.n1 - Rank(e.q, e.A, e.n1) k2 == e.n2 - Rank(e.q, e.B, e.n2) IN
                  Promises(e, X, Z, e.n1 * e.n2, TRUE) \cup If(e.k_ = k1 * k2, "C13.shp-predicted-dimension")
                  \cup (IF e.op = "shyps" THEN If(e.k_ = e.a * (IF e.b = 0 THEN e.a ELSE e.b) /\ e.n1 = 2 ^ e.a - 1, "C13.shyps-dimension") ELSE {})
                  \cup (IF k1 * k2 = 0 \/ ~e.dist THEN {} ELSE
                        LET d1 == MinW(e.q, e.A, e.n1) d2 == MinW(e.q, e.B, e.n2) IN If(e.dx = d2 /\ e.dz = d1, "C13.shp-distance"))
       [] e.op \in {"lp", "slp"} -> IF ~IsGroupList(e.mem) THEN {"C13.group"} ELSE
             LET R == RingOf(e.q, e.mem) d == e.dim IN
             IF ~Rep(R, e.lifts, d) THEN {"C13.lift"}
             ELSE LET X == IF e.op = "lp" THEN HCat(RKron(R, e.A, e.n1, RI(R, e.n2), e.n2), RKron(R, RI(R, e.m1), e.m1, RMatT(R, e.B, e.n2), e.m2)) ELSE RKron(R, e.A, e.n1, RI(R, e.n2), e.n2)
                      Z == IF e.op = "lp" THEN HCat(RNeg(R, RKron(R, RI(R, e.n1), e.n1, e.B, e.n2)), RKron(R, RMatT(R, e.A, e.n1), e.m1, RI(R, e.m2), e.m2)) ELSE RKron(R, RI(R, e.n1), e.n1, e.B, e.n2)
                      LX == LiftMat(R, e.lifts, d, X) LZ == LiftMat(R, e.lifts, d, Z)
                      n == d * (IF e.op = "lp" THEN e.n1 * e.n2 + e.m1 * e.m2 ELSE e.n1 * e.n2) IN
                  IF e.op = "lp" /\ ~AllZero(MulT(e.q, LX, LZ)) THEN If(e.exc = "ValueError", "C13.lp-noncommuting")
                  ELSE IF e.exc # "" THEN {"C13.raises-" \o e.op}
                  ELSE Promises(e, LX, LZ, n, e.op = "slp")
                  \cup (IF e.op = "lp" THEN If(e.sectors = <<<<d * e.n1 * e.n2, d * e.n1 * e.m2>>, <<d * e.m1 * e.n2, d * e.m1 * e.m2>>>>, "C13.lp-sectors")
                                            \cup If(e.conj = Range01(d * e.n1 * e.n2, n), "C13.lp-conjugated-sector") ELSE {})
Start(case) == 0
AfterEvent(s, e) == s
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
=================================================================================
