------------------------------ MODULE GroupRing ------------------------------
(***************************************************************************)
(* Group algebras.  A ring is [q, mem, mul, inv, e]: the field order, the  *)
(* sequence of group members, their multiplication table (1-based), the    *)
(* index of inverses and of the identity.  An element is the sequence of   *)
(* its coefficients; a matrix is a sequence of rows of elements.           *)
(***************************************************************************)
EXTENDS Perms
MulTable(mem) == LET n == Len(mem)
                     at == TLCEval([x \in {mem[i] : i \in 1..n} |-> CHOOSE i \in 1..n : mem[i] = x])
                 IN  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> at[PMul(mem[i], mem[j])]])])
IsGroupList(mem) == LET n == Len(mem) S == {mem[i] : i \in 1..n} IN
    n > 0 /\ Cardinality(S) = n /\ (\A i \in 1..n : IsPerm(mem[i], Len(mem[1]))) /\ \A x \in S : \A y \in S : PMul(x, y) \in S
RingOf(q, mem) == LET mul == MulTable(mem) n == Len(mem)
                      e == CHOOSE i \in 1..n : mem[i] = PId(Len(mem[1]))
                      inv == TLCEval([i \in 1..n |-> CHOOSE j \in 1..n : mul[i][j] = e])
                      \* ldiv[i][k]: what to multiply member i with (from the right) to get member k
                      ldiv == TLCEval([i \in 1..n |-> TLCEval([k \in 1..n |-> mul[inv[i]][k]])])
                  IN  [q |-> q, mem |-> mem, mul |-> mul, e |-> e, inv |-> inv, ldiv |-> ldiv, n |-> n]
RZero(R) == ZeroVec(R.n)
ROne(R) == UnitVec(R.n, R.e)
\* the prime-subfield element c * 1
OfInt(q, c) == c % PChar(q)
RMember(R, i) == UnitVec(R.n, i)
RMul(R, x, y) == TLCEval(FoldLeft(LAMBDA acc, i : IF x[i] = 0 THEN acc
                   ELSE VAxpy(R.q, x[i], TLCEval([k \in 1..R.n |-> y[R.ldiv[i][k]]]), acc), RZero(R), Idx[R.n]))
RT(R, x) == TLCEval([i \in 1..R.n |-> x[R.inv[i]]])
RPow(R, x, k) == FoldLeft(LAMBDA acc, i : RMul(R, acc, x), ROne(R), Idx[k])
\* the matrix of multiplication by x from the left
Regular(R, x) == TLCEval([k \in 1..R.n |-> TLCEval([j \in 1..R.n |-> x[R.mul[k][R.inv[j]]]])])
IsUnit(R, x) == Rank(R.q, Regular(R, x), R.n) = R.n
Terms(R, ts) == TLCEval(FoldLeft(LAMBDA acc, t : [acc EXCEPT ![ts[t][2]] = Add(R.q, @, ts[t][1])], RZero(R), Idx[Len(ts)]))
---------------------------------------------------------------------------
\* matrices over the ring
RMatMul(R, A, B, n) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..n |->
    FoldLeft(LAMBDA acc, k : VAdd(R.q, acc, RMul(R, A[i][k], B[k][j])), RZero(R), Idx[Len(B)])])])
RMatT(R, A, n) == TLCEval([j \in 1..n |-> TLCEval([i \in 1..Len(A) |-> RT(R, A[i][j])])])
IsZeroMat(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : IsZero(A[i][j])
FlatRow(row) == FoldLeft(LAMBDA acc, x : acc \o x, << >>, row)
\* the left module spanned by rows, as a space over the field
Shifted(R, x, g) == TLCEval([k \in 1..R.n |-> x[R.ldiv[g][k]]])
RowModule(R, A) == FoldLeft(LAMBDA acc, i : acc \o
    TLCEval([g \in 1..R.n |-> FlatRow(TLCEval([j \in 1..Len(A[i]) |-> Shifted(R, A[i][j], g)]))]), << >>, Idx[Len(A)])
SameModule(R, A, B, n) == SameSpan(R.q, RowModule(R, A), RowModule(R, B), n * R.n)
ModuleDim(R, A, n) == Rank(R.q, RowModule(R, A), n * R.n)
Without(A, i) == SubSeq(A, 1, i - 1) \o SubSeq(A, i + 1, Len(A))
InModule(R, row, A, n) == InRowSpace(R.q, RREF(R.q, RowModule(R, A), n * R.n), FlatRow(row))
\* block matrix of the regular lifts of all entries
RegularBlock(R, A) == FoldLeft(LAMBDA acc, i : acc \o
    TLCEval([r \in 1..R.n |-> FlatRow(TLCEval([j \in 1..Len(A[i]) |-> Regular(R, A[i][j])[r]]))]), << >>, Idx[Len(A)])
===============================================================================
