------------------------------ MODULE ChainTrace ------------------------------
(* The meaning of chain complexes, their transposes and tensor products.       *)
EXTENDS GroupRing, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
\* a complex: [ok, R, ops]; ops: sequence of [m, n, A]
None == [ok |-> FALSE]
Coefs(R, v) == Len(v) = R.n /\ \A i \in 1..R.n : v[i] \in 0..R.q-1
IsOp(R, o) == Len(o.A) = o.m /\ \A i \in 1..o.m : Len(o.A[i]) = o.n /\ \A j \in 1..o.n : Coefs(R, o.A[i][j])
Composes(R, x, y) == x.n = y.m /\ IsZeroMat(RMatMul(R, x.A, y.A, y.n))
Valid(R, ops) == \A k \in 1..Len(ops) - 1 : Composes(R, ops[k], ops[k + 1])
ZeroRM(R, m, n) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> RZero(R)])])
TOp(R, o) == [m |-> o.n, n |-> o.m, A |-> RMatT(R, o.A, o.n)]
TOps(R, ops) == LET L == Len(ops) IN TLCEval([k \in 1..L |-> TOp(R, ops[L + 1 - k])])
Dim(ops, k) == IF k = 0 THEN ops[1].m ELSE ops[k].n
---------------------------------------------------------------------------
\* tensor product: sectors (i, j) of degree k, by decreasing i
Sectors(na, nb, k) == LET hi == IF na < k THEN na ELSE k lo == IF k - nb > 0 THEN k - nb ELSE 0
                      IN  TLCEval([t \in 1..(hi - lo + 1) |-> <<hi + 1 - t, k - (hi + 1 - t)>>])
\* entry of the block from sector c to sector r at (i1, i2), (j1, j2)
Entry(R, a, b, r, c, i1, i2, j1, j2) ==
    IF r[1] = c[1] - 1 /\ r[2] = c[2] THEN IF i2 = j2 THEN a[c[1]].A[i1][j1] ELSE RZero(R)
    ELSE IF r[1] = c[1] /\ r[2] = c[2] - 1 THEN IF i1 = j1 THEN (IF c[1] % 2 = 1 THEN VNeg(R.q, b[c[2]].A[i2][j2]) ELSE b[c[2]].A[i2][j2]) ELSE RZero(R)
    ELSE RZero(R)
BlockRow(R, a, b, r, i1, i2, cs2) == FoldLeft(LAMBDA acc, t :
        LET c == cs2[t] nj2 == Dim(b, c[2]) IN
        acc \o TLCEval([x \in 1..Dim(a, c[1]) * nj2 |-> Entry(R, a, b, r, c, i1, i2, ((x - 1) \div nj2) + 1, ((x - 1) % nj2) + 1)]), << >>, Idx[Len(cs2)])
TensorOp(R, a, b, k) ==
    LET rs == Sectors(Len(a), Len(b), k - 1) cs2 == Sectors(Len(a), Len(b), k)
        total(ss) == FoldLeft(LAMBDA acc, t : acc + Dim(a, ss[t][1]) * Dim(b, ss[t][2]), 0, Idx[Len(ss)])
        rows == FoldLeft(LAMBDA acc, t : LET r == rs[t] ni2 == Dim(b, r[2]) IN
                   acc \o TLCEval([x \in 1..Dim(a, r[1]) * ni2 |-> BlockRow(R, a, b, r, ((x - 1) \div ni2) + 1, ((x - 1) % ni2) + 1, cs2)]), << >>, Idx[Len(rs)])
    IN  [m |-> total(rs), n |-> total(cs2), A |-> rows]
TensorOps(R, a, b) == TLCEval([k \in 1..Len(a) + Len(b) |-> TensorOp(R, a, b, k)])
---------------------------------------------------------------------------
\* what is reported about a complex with the given operators
Reported(R, e, ops, name) ==
    If(e.ops_ = ops, "C12." \o name)
    \cup If(e.links = Len(ops), "C12.links") \cup If(e.field = R.q, "C12.field")
    \cup (IF Len(e.dims) # Len(ops) + 1 THEN {"C12.dims"} ELSE If(\A k \in 0..Len(ops) : e.dims[k + 1] = Dim(ops, k), "C12.dims"))
    \cup If(e.first = <<0, Dim(ops, 0)>> /\ e.last = <<Dim(ops, Len(ops)), 0>>, "C12.outer-operators")
    \cup If(e.lifted, "C12.lifted-composition")
CheckEvent(s, e) ==
    LET mut == If(e.mut = << >>, "C12.mutated") IN
    IF e.skip THEN mut
    ELSE mut \cup
     CASE e.op = "chain" -> IF ~IsGroupList(e.mem) THEN {"C12.group"} ELSE LET R == RingOf(e.q, e.mem) IN
             IF Valid(R, e.ops) THEN IF e.exc # "" THEN {"C12.rejects-valid"} ELSE Reported(R, e, e.ops, "operators")
             ELSE If(e.exc = "ValueError", "C12.accepts-invalid")
       [] e.op \in {"clash", "tclash"} -> If(e.exc = "ValueError", "C12.accepts-inconsistent")
       [] e.op = "T" -> LET c == s[e.a] IN IF ~c.ok THEN {} ELSE IF e.exc # "" THEN {"C12.raises-transpose"}
             ELSE Reported(c.R, e, TOps(c.R, c.ops), "transpose") \cup If(e.tt = c.ops, "C12.transpose-twice")
       [] e.op = "tensor" -> LET a == s[e.a] b == s[e.b] IN IF ~a.ok \/ ~b.ok THEN {} ELSE IF e.exc # "" THEN {"C12.raises-tensor"}
             ELSE LET want == TensorOps(a.R, a.ops, b.ops) IN
                  Reported(a.R, e, want, "tensor")
                  \cup (IF \A k \in 1..Len(e.ops_) : IsOp(a.R, e.ops_[k]) THEN If(Valid(a.R, e.ops_), "C12.tensor-valid") ELSE {"C12.tensor-valid"})
AfterEvent(s, e) ==
    CASE e.op = "chain" -> Append(s, IF e.exc # "" \/ e.skip \/ ~IsGroupList(e.mem) THEN None ELSE [ok |-> TRUE, R |-> RingOf(e.q, e.mem), ops |-> e.ops])
      [] e.op = "T" -> LET c == s[e.a] IN Append(s, IF e.exc # "" \/ e.skip \/ ~c.ok THEN None ELSE [ok |-> TRUE, R |-> c.R, ops |-> TOps(c.R, c.ops)])
      [] e.op = "tensor" -> LET a == s[e.a] b == s[e.b] IN Append(s, IF e.exc # "" \/ e.skip \/ ~a.ok \/ ~b.ok THEN None
             ELSE [ok |-> TRUE, R |-> a.R, ops |-> TensorOps(a.R, a.ops, b.ops)])
      [] OTHER -> s
Start(case) == << >>
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
=================================================================================
