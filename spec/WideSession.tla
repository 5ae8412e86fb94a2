------------------------------ MODULE WideSession ------------------------------
(***************************************************************************)
(* A user asks for the distances of long codes: blocks that cross the      *)
(* machine words the implementation packs bits into, with few enough       *)
(* generators for the distance to be found by definition.  Vectors over    *)
(* GF(2) are written as their supports, so that sums are symmetric         *)
(* differences.                                                            *)
(***************************************************************************)
EXTENDS Supports, Json
CONSTANTS Steps
VARIABLES log, phase
vars == <<log, phase>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Log(ev) == log' = Append(log, ev)
Lengths == <<20, 63, 64, 65, 100, 127, 128, 129, 130, 192, 193, 254, 255, 256, 257, 258, 300>>
\* vectors of several densities, some of them confined to part of the block
RSupp(n, x) == LET d == Pick(<<1, 2, 3, 10, 40>>)
                   a == Pick(<<1, 1, 1, Rnd(1..n)>>)
                   b == Pick(<<n, n, n, Rnd(1..n)>>)
                   s == {i \in 1..n : i >= a /\ i <= b /\ RandomElement(1..d) = 1}
               IN  IF s = {} THEN {Rnd(1..n)} ELSE s
RSupps(m, n) == TLCEval([i \in 1..m |-> RSupp(n, i)])
\* linearly independent ones: only the i-th contains i, for i = 1..m
Indep(m, n) == TLCEval([i \in 1..m |-> (RSupp(n, i) \ (1..m)) \cup {i}])
\* the same, with the marked positions spread over the block
Spread(M, n, m) == LET p == (n \div m) IN
    TLCEval([i \in 1..Len(M) |-> {IF x <= m THEN (x - 1) * p + 1 ELSE IF (x - 1) % p = 0 /\ (x - 1) \div p < m THEN (x - 1) \div p + 1 ELSE x : x \in M[i]}])
Out(M) == TLCEval([i \in 1..Len(M) |-> SetToSortSeq(M[i], LAMBDA x, y : x < y)])
Code == \E n \in {Pick(Lengths \o <<640, 640>>)} : \E k \in {IF n = 640 THEN Pick(<<1, 6, 7, 8>>) ELSE Rnd(1..5)} : \E G \in {RSupps(k, n)} : \E v \in {RSupp(n, 0)} :
        Log([op |-> "wcode", n |-> n, m |-> Out(G), v |-> Out(<<v>>)[1], ask |-> Pick(<<"dist", "dist", "vector", "both">>)])
Raw == \E n \in {Pick(Lengths)} : \E hom \in {Pick(<<TRUE, FALSE>>)} : \E w \in {IF hom THEN n ELSE 2 * n} :
       \E L \in {RSupps(Rnd(1..3), w)} : \E S \in {RSupps(Rnd(0..4), w)} :
        Log([op |-> "wraw", n |-> n, w |-> w, hom |-> hom, m |-> Out(L), s |-> Out(S),
             block |-> Pick(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15>>), how |-> Pick(<<"plain", "plain", "plain", "plain", "old", "old", "old", "numba">>)])
CSS == \E n \in {Pick(<<20, 63, 64, 65, 100, 127, 128, 129, 130, 256, 257>>)} : \E r \in {Rnd(1..3)} : \E k \in {Rnd(1..2)} :
       \E M \in {Spread(Indep(r + k, n), n, r + k)} :
        Log([op |-> "wcss", n |-> n, hx |-> Out(SubSeq(M, 1, r)), lx |-> Out(SubSeq(M, r + 1, r + k)),
             sub |-> Pick(<<FALSE, FALSE, TRUE>>), pauli |-> Pick(<<"X", "Z">>)])
Init == log = << >> /\ phase = 0
Next == \/ phase < Steps /\ phase' = phase + 1 /\ \E kind \in {Pick(<<"code", "raw", "raw", "raw", "css">>)} :
             (CASE kind = "code" -> Code [] kind = "raw" -> Raw [] OTHER -> CSS)
        \/ phase = Steps /\ phase' = Steps + 1 /\ PrintT(ToJson(log)) /\ UNCHANGED log
Spec == Init /\ [][Next]_vars
================================================================================
