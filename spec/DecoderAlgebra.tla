---------------------------- MODULE DecoderAlgebra ----------------------------
(* What it means to decode: explanations of a syndrome and their weights.      *)
(* A decoding problem is [q, n (sites), H, symp]; if symp the rows of H are    *)
(* Pauli strings of length 2n, errors are Pauli strings, weight is the number  *)
(* of sites acted on, and the syndrome of e is the symplectic product with it. *)
EXTENDS Distance
Width(p) == IF p.symp THEN 2 * p.n ELSE p.n
EffH(p) == IF p.symp THEN SConjM(p.q, p.H, p.n) ELSE p.H
SyndromeOf(p, e) == MatVec(p.q, EffH(p), e)
WeightOf(p, e) == IF p.symp THEN SWeight(e, p.n) ELSE Weight(e)
\* some error has this syndrome
Satisfiable(p, s) ==
    LET A == Transpose(EffH(p), Width(p)) m == Len(p.H)
    IN  InRowSpace(p.q, RREF(p.q, A, m), s)
\* smallest weight of an error with syndrome s (-1 if there is none)
MinExplanation(p, s) ==
    LET M == EffH(p)
        Of(w, W) == IF p.symp THEN PauliSupported(p.q, p.n, W, "") ELSE Supported(p.q, p.n, W)
        Has(w) == \E W \in kSubset(w, 1..p.n) : \E e \in Of(w, W) : \A i \in 1..Len(M) : Dot(p.q, M[i], e) = s[i]
    IN  IF ~Satisfiable(p, s) THEN -1 ELSE Least(0, p.n, Has)
\* largest weight that is certainly correctable: half the distance of the code, rounded down
HalfDistance(p) ==
    LET d == IF p.symp THEN QuantumDistance(CodeInfo(p.q, p.n, p.H), "") ELSE ClassicalDistance(p.q, p.H, p.n)
    IN  IF d = -1 THEN 0 ELSE (d - 1) \div 2
===============================================================================
