--------------------------- MODULE ClassicalAlgebra ---------------------------
(***************************************************************************)
(* Linear codes over GF(q) as vector spaces.  A code is represented by the *)
(* reduced row echelon basis W of its words (n is kept separately since W  *)
(* may be empty).  Every operation is its textbook definition on words.    *)
(***************************************************************************)
EXTENDS Distance

Words(q, W, n) == SpanSet(q, W, n)
FromChecks(q, H, n) == RREF(q, NullSpace(q, H, n), n)
FromGenerator(q, G, n) == RREF(q, G, n)
ChecksOf(q, W, n) == RREF(q, NullSpace(q, W, n), n)
DualW(q, W, n) == ChecksOf(q, W, n)
\* C_a (x) C_b: the span of all u (x) v
TensorW(q, A, na, B, nb) == RREF(q, Kron(q, A, na, B, nb), na * nb)
\* disjoint union: <<q, sequence of bases, sequence of lengths>>
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE s[1] + SumSeq(Tail(s))
StackW(q, Ws, ns) ==
    LET N == SumSeq(ns)
        off == [i \in 1..Len(ns) |-> SumSeq(SubSeq(ns, 1, i - 1))]
        pad(v, i) == ZeroVec(off[i]) \o v \o ZeroVec(N - off[i] - ns[i])
    IN  FoldLeft(LAMBDA acc, i : acc \o TLCEval([r \in 1..Len(Ws[i]) |-> pad(Ws[i][r], i)]), << >>, Idx[Len(Ws)])
Others(n, bits) == SetToSortSeq((1..n) \ bits, LAMBDA a, b : a < b)
PunctureW(q, W, n, bits) == LET keep == Others(n, bits) IN RREF(q, PickCols(W, keep), Len(keep))
\* words vanishing on bits, then bits deleted
ShortenW(q, W, n, bits) ==
    LET keep == Others(n, bits)
        bs == SetToSortSeq(bits, LAMBDA a, b : a < b)
        R == PickCols(RREF(q, PickCols(W, bs \o keep), n), Idx[n])
        van == SelectSeq(R, LAMBDA v : \A i \in 1..Len(bs) : v[i] = 0)
    IN  RREF(q, TLCEval([i \in 1..Len(van) |-> SubSeq(van[i], Len(bs) + 1, n)]), Len(keep))
MinWeight(q, W, n) ==
    IF W = << >> THEN -1
    ELSE LET ws == {Weight(w) : w \in Words(q, W, n) \ {ZeroVec(n)}} IN CHOOSE x \in ws : \A y \in ws : x <= y
NearestWord(q, W, n, v) ==
    LET ws == {Weight(VSub(q, v, w)) : w \in Words(q, W, n)} IN CHOOSE x \in ws : \A y \in ws : x <= y
===============================================================================
