------------------------------ MODULE FamilyTrace ------------------------------
(* What the definitions of the named code families promise.                     *)
EXTENDS Distance, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
Ones(q, n) == TLCEval([i \in 1..n |-> 1])
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE SumBinom(_, _)
SumBinom(m, r) == IF r < 0 THEN 0 ELSE Binom(m, r) + SumBinom(m, r - 1)
QInt(q, r) == (q ^ r - 1) \div (q - 1)
IsPow(q, n) == \E m \in 1..8 : q ^ m = n
---------------------------------------------------------------------------
\* admissible parameters, and the promised [length, dimension, distance] (distance -1: undefined, -2: see below)
BCHDim == [n \in {3, 7, 15, 31} |-> CASE n = 3 -> [k \in {1} |-> 3] [] n = 7 -> (1 :> 7) @@ (4 :> 3) [] n = 15 -> (1 :> 15) @@ (5 :> 7) @@ (7 :> 5) @@ (11 :> 3)
              [] n = 31 -> (1 :> 31) @@ (6 :> 15) @@ (11 :> 11) @@ (16 :> 7) @@ (21 :> 5) @@ (26 :> 3)]
Admissible(e) == LET p == e.p IN
    CASE e.fam \in {"repetition", "ring"} -> p[1] >= 1
      [] e.fam = "hamming" -> p[1] >= 1
      [] e.fam = "extended-hamming" -> p[1] >= 1
      [] e.fam = "reed-solomon" -> TRUE
      [] e.fam = "bch" -> IsPow(e.q, p[1] + 1) /\ IF e.q = 2 THEN IF p[1] \in DOMAIN BCHDim THEN p[2] \in DOMAIN BCHDim[p[1]] ELSE FALSE
                                                  ELSE <<e.q, p[1], p[2]>> \in {<<3, 8, 3>>, <<3, 8, 6>>, <<3, 8, 1>>}
      [] e.fam = "reed-muller" -> p[2] >= 0 /\ p[1] \in 0..p[2]
      [] e.fam = "simplex" -> p[1] \in 2..7
      [] e.fam \in {"five-qubit", "steane", "c4", "c6", "shyps"} -> TRUE
      [] e.fam = "iceberg" -> p[1] >= 1
      [] e.fam = "surface" -> p[1] >= 1 /\ p[2] # 0
      [] e.fam = "toric" -> p[1] >= 1 /\ p[2] # 0 /\ (p[3] = 0 \/ (p[1] % 2 = 0 /\ (p[2] = -1 \/ p[2] % 2 = 0)))
      [] e.fam = "generalized-surface" -> p[1] >= 1 /\ p[2] >= 2
      [] e.fam = "bacon-shor" -> p[1] >= 1
\* not decided either way: which ternary or quaternary BCH codes exist, BCH codes of length q - 1
Undecided(e) == e.fam = "bch" /\ (e.p[1] = e.q - 1 \/ (e.q > 2 /\ IsPow(e.q, e.p[1] + 1) /\ ~Admissible(e)))
Promise(e) == LET p == e.p q == e.q IN
    CASE e.fam \in {"repetition", "ring"} -> <<p[1], 1, p[1]>>
      [] e.fam = "hamming" -> IF p[1] = 1 THEN <<1, 0, -1>> ELSE <<QInt(q, p[1]), QInt(q, p[1]) - p[1], 3>>
      [] e.fam = "extended-hamming" -> IF p[1] = 1 THEN <<2, 0, -1>> ELSE <<2 ^ p[1], 2 ^ p[1] - p[1] - 1, 4>>
      [] e.fam = "reed-solomon" -> <<p[1], p[2], p[1] - p[2] + 1>>
      [] e.fam = "bch" -> <<p[1], p[2], IF q = 2 THEN BCHDim[p[1]][p[2]] ELSE CASE p = <<8, 3>> -> 5 [] p = <<8, 6>> -> 2 [] p = <<8, 1>> -> 8>>
      [] e.fam = "reed-muller" -> <<2 ^ p[2], SumBinom(p[2], p[1]), 2 ^ (p[2] - p[1])>>
      [] e.fam = "simplex" -> <<2 ^ p[1] - 1, p[1], 2 ^ (p[1] - 1)>>
\* binary Reed-Muller codes: evaluations of monomials of degree at most r at all points
Bit(x, i) == (x \div (2 ^ (i - 1))) % 2
RMGen(r, m) == SetToSeq({TLCEval([x \in 1..2 ^ m |-> IF \A i \in T : Bit(x - 1, i) = 1 THEN 1 ELSE 0]) : T \in {T \in SUBSET (1..m) : Cardinality(T) <= r}})
\* the words themselves, where the definition fixes them
WordsOK(e) == LET n == Promise(e)[1] q == e.q IN
    CASE e.fam \in {"repetition", "ring"} -> SameSpan(q, NullSpace(q, e.H, n), <<Ones(q, n)>>, n)
      [] e.fam = "hamming" -> /\ \A i, j \in 1..n : i # j => \A c \in 1..q-1 : \E r \in 1..Len(e.H) : e.H[r][i] # Mul(q, c, e.H[r][j])   \* columns pairwise independent
                              /\ Len(e.H) = e.p[1] /\ \A i \in 1..n : \E r \in 1..Len(e.H) : e.H[r][i] # 0
      [] e.fam = "extended-hamming" -> \A i \in 1..n : \E r \in 1..Len(e.H) : e.H[r][i] # 0
      [] e.fam \in {"simplex", "bch"} -> LET R == RREF(q, e.H, n) IN                                                     \* cyclic
              \A i \in 1..Len(e.H) : InRowSpace(q, R, TLCEval([j \in 1..n |-> e.H[i][(j % n) + 1]]))
      [] e.fam = "reed-muller" -> \* every word vanishes against all words of the dual family (binary)
              IF q = 2 /\ e.p[1] < e.p[2] THEN SameSpan(2, e.H, RMGen(e.p[2] - e.p[1] - 1, e.p[2]), n) ELSE TRUE
      [] OTHER -> TRUE
\* the minimum weight: by listing the words if there are few, else by trying weights
MinWeight(q, H, n, k) == IF k = 0 THEN -1 ELSE IF q ^ k <= 3000 THEN LET W == {Weight(v) : v \in SpanSet(q, NullSpace(q, H, n), n)} \ {0} IN CHOOSE w \in W : \A x \in W : w <= x
                         ELSE ClassicalDistance(q, H, n)
ClassicalClauses(e) ==
    LET want == Promise(e) n == want[1] q == e.q_ IN
    IF ~(e.n_ = n /\ Rect(q, e.H, n)) THEN {"C14.length"}
    ELSE If(e.fam = "reed-solomon" \/ q = e.q, "C14.field")
         \cup If(e.k_ = want[2] /\ n - Rank(q, e.H, n) = want[2], "C14.dimension")
         \cup If(e.k_ = n - Rank(q, e.H, n), "C02.family-dimension") \cup If(e.rank = Rank(q, e.H, n), "C02.family-rank")
         \cup (IF n - Rank(q, e.H, n) # want[2] THEN {} ELSE
               LET d == MinWeight(q, e.H, n, want[2]) IN If(d = want[3], "C14.distance") \cup If(e.d_ \in {d, -9}, "C14.reported-distance") \cup If(e.d_ \in {d, -9}, "C03.family-distance"))
         \cup If(WordsOK([e EXCEPT !.q = q]), "C14.words")
---------------------------------------------------------------------------
Other(p, i) == IF p[i] = -1 THEN p[1] ELSE p[i]
\* promised [length, dimension, X-distance, Z-distance]
Min2(a, b) == IF a < b THEN a ELSE b
QPromise(e) == LET p == e.p IN
    CASE e.fam = "five-qubit" -> <<5, 1, -1, -1>>
      [] e.fam = "steane" -> <<7, 1, 3, 3>>
      [] e.fam = "iceberg" -> IF p[1] = 1 THEN <<2, 0, -1, -1>> ELSE <<2 * p[1], 2 * p[1] - 2, 2, 2>>
      [] e.fam = "c4" -> <<4, 2, 2, 2>>
      [] e.fam = "c6" -> <<6, 2, 2, 2>>
      [] e.fam = "surface" -> LET r == p[1] c == Other(p, 2) IN <<IF p[3] = 1 THEN r * c ELSE r * c + (r - 1) * (c - 1), 1, c, r>>
      [] e.fam = "toric" -> LET r == p[1] c == Other(p, 2) IN <<IF p[3] = 1 THEN r * c ELSE 2 * r * c, 2, Min2(r, c), Min2(r, c)>>
      [] e.fam = "generalized-surface" -> LET s == p[1] d == p[2] IN
             <<IF p[3] = 1 THEN d * s ^ d ELSE s ^ d + (d - 1) * s ^ (d - 2) * (s - 1) ^ 2, IF p[3] = 1 THEN d ELSE 1, s ^ (d - 1), s>>
      [] e.fam = "bacon-shor" -> LET r == p[1] c == Other(p, 2) IN <<r * c, 1, c, r>>
      [] e.fam = "shyps" -> LET a == p[1] b == Other(p, 2) IN <<(2 ^ a - 1) * (2 ^ b - 1), a * b, 2 ^ (b - 1), 2 ^ (a - 1)>>
QuantumClauses(e) ==
    LET want == QPromise(e) n == want[1] q == e.q_ IN
    IF ~(e.n_ = n /\ Rect(q, e.M, 2 * n) /\ q = e.q) THEN {"C14.length"}
    ELSE LET info == CodeInfo(q, n, e.M) IN
         If(e.fam \in {"bacon-shor", "shyps"} \/ ~info.sub, "C14.commute")
         \cup If(e.k_ = want[2] /\ info.k = want[2], "C14.dimension")
         \cup If(e.k_ = info.k /\ e.g_ = info.g /\ e.r_ = info.rank /\ e.sub = info.sub, "C02.family-accounting")
         \cup (IF info.k # want[2] THEN {} ELSE
               If(ValidLogicals(info, e.L), "C14.logicals") \cup If(ValidLogicals(info, e.L), "C01.family-logicals")
               \cup If(Rect(q, e.S, 2 * n) /\ RREF(q, e.S, 2 * n) = info.S, "C01.family-stabilizers") \cup If(ValidGauges(info, e.G_), "C01.family-gauges")
               \cup (IF e.fam = "five-qubit" THEN If(QuantumDistance(info, "") = 3 /\ e.d_ = 3, "C14.distance")
                     ELSE IF info.k = 0 THEN If(e.d_ = -1 /\ e.dx = -1 /\ e.dz = -1, "C14.distance")
                     ELSE LET dx == QuantumDistance(info, "X") dz == QuantumDistance(info, "Z") IN
                          If(dx = want[3] /\ dz = want[4], "C14.distance")
                          \cup If(e.dx = dx /\ e.dz = dz /\ e.d_ = Min2(dx, dz), "C14.reported-distance") \cup If(e.dx = dx /\ e.dz = dz /\ e.d_ = Min2(dx, dz), "C03.family-distance")))
ClassicalFams == {"repetition", "ring", "hamming", "extended-hamming", "reed-solomon", "bch", "reed-muller", "simplex"}
CheckEvent(s, e) ==
    IF Undecided(e) THEN {}
    ELSE IF ~Admissible(e) THEN If(e.exc # "", "C14.accepts-inadmissible")
    ELSE IF e.exc # "" THEN {"C14.raises-" \o e.fam}
    ELSE IF e.fam \in ClassicalFams THEN ClassicalClauses(e) ELSE QuantumClauses(e)
Start(case) == 0
AfterEvent(s, e) == s
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
=================================================================================
