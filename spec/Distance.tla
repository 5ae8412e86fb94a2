-------------------------------- MODULE Distance --------------------------------
(* Distances by definition: minimum weight, found by trying weights in order.    *)
EXTENDS Stab, FiniteSetsExt

\* all vectors of length n with support exactly W and nonzero entries
Supported(q, n, W) ==
    {TLCEval([i \in 1..n |-> IF i \in W THEN f[i] ELSE 0]) : f \in [W -> 1..q-1]}
\* all Pauli strings with support exactly W; type "" (any), "X" or "Z"
PauliSupported(q, n, W, type) ==
    LET vals == CASE type = "X" -> {<<a, 0>> : a \in 1..q-1}
                  [] type = "Z" -> {<<0, a>> : a \in 1..q-1}
                  [] OTHER -> ((0..q-1) \X (0..q-1)) \ {<<0, 0>>}
    IN  {TLCEval([i \in 1..2*n |-> IF i <= n THEN (IF i \in W THEN f[i][1] ELSE 0)
                                   ELSE (IF (i - n) \in W THEN f[i - n][2] ELSE 0)]) : f \in [W -> vals]}
\* smallest w in lo..n satisfying Has(w), or -1
Least(lo, n, Has(_)) ==
    FoldLeft(LAMBDA acc, i : IF acc # -1 THEN acc ELSE IF Has(lo + i - 1) THEN lo + i - 1 ELSE -1,
             -1, Idx[IF n < lo THEN 0 ELSE n - lo + 1])

\* minimum weight of a nontrivial (dressed) logical operator of the given type; -1 if k = 0
QuantumDistance(info, type) ==
    IF info.k = 0 THEN -1
    ELSE LET Hit(v) == /\ \A i \in 1..info.s : Symp(info.q, info.S[i], v, info.n) = 0
                       /\ ~InRowSpace(info.q, info.G, v)
             Has(w) == \E W \in kSubset(w, 1..info.n) :
                          \E v \in PauliSupported(info.q, info.n, W, type) : Hit(v)
         IN  Least(1, info.n, Has)
\* minimum weight of a nonzero word of the code with checks H; -1 if there is none
ClassicalDistance(q, H, n) ==
    LET R == RREF(q, H, n)
    IN  IF Len(R) = n THEN -1
        ELSE Least(1, n, LAMBDA w : \E W \in kSubset(w, 1..n) : \E v \in Supported(q, n, W) :
                                       \A i \in 1..Len(R) : Dot(q, R[i], v) = 0)
\* minimum Hamming distance of v to a word of the code with checks H
DistanceTo(q, H, n, v) ==
    LET R == RREF(q, H, n)
        s == MatVec(q, R, v)
    IN  Least(0, n, LAMBDA w : \E W \in kSubset(w, 1..n) : \E u \in Supported(q, n, W) :
                                  MatVec(q, R, u) = s)
==================================================================================
