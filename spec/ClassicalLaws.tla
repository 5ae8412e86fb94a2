----------------------------- MODULE ClassicalLaws -----------------------------
(* Theorems about ClassicalAlgebra, checked by TLC on every small code: the     *)
(* operations on bases agree with their definitions on sets of words.          *)
EXTENDS ClassicalAlgebra
CONSTANTS Q, N, R
VARIABLES W
Vecs == [1..N -> 0..Q-1]
Mats == UNION {[1..r -> Vecs] : r \in 0..R}
LInit == \E M \in Mats : W = RREF(Q, M, N)
LNext == UNCHANGED W
LSpec == LInit /\ [][LNext]_W
S == Words(Q, W, N)
AllVecs == {TLCEval([i \in 1..N |-> v[i]]) : v \in Vecs}
Counts == Cardinality(S) = Q ^ Len(W)
Kernel == S = {v \in AllVecs : \A i \in 1..Len(ChecksOf(Q, W, N)) : Dot(Q, ChecksOf(Q, W, N)[i], v) = 0}
DualOK == /\ Words(Q, DualW(Q, W, N), N) = {v \in AllVecs : \A w \in S : Dot(Q, v, w) = 0}
          /\ DualW(Q, DualW(Q, W, N), N) = W
Drop(v, bits) == LET keep == Others(N, bits) IN TLCEval([j \in 1..Len(keep) |-> v[keep[j]]])
PunctureOK == \A bits \in SUBSET (1..N) \ {1..N} :
    Words(Q, PunctureW(Q, W, N, bits), N - Cardinality(bits)) = {Drop(w, bits) : w \in S}
ShortenOK == \A bits \in SUBSET (1..N) \ {1..N} :
    /\ Words(Q, ShortenW(Q, W, N, bits), N - Cardinality(bits)) = {Drop(w, bits) : w \in {w \in S : \A b \in bits : w[b] = 0}}
    /\ ShortenW(Q, W, N, bits) = DualW(Q, PunctureW(Q, DualW(Q, W, N), N, bits), N - Cardinality(bits))
DistOK == MinWeight(Q, W, N) = ClassicalDistance(Q, ChecksOf(Q, W, N), N)
StackOK == Words(Q, StackW(Q, <<W, W>>, <<N, N>>), 2 * N) = {a \o b : a \in S, b \in S}
TensorOK == LET P == TensorW(Q, W, N, W, N)
                byrow(v) == \A i \in 1..N : TLCEval([j \in 1..N |-> v[(i-1)*N + j]]) \in S
                bycol(v) == \A j \in 1..N : TLCEval([i \in 1..N |-> v[(i-1)*N + j]]) \in S
            IN  Len(P) = Len(W) * Len(W) /\ (Len(P) <= 4 => \A v \in Words(Q, P, N * N) : byrow(v) /\ bycol(v))
================================================================================
