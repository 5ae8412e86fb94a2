------------------------------- MODULE Supports -------------------------------
(* Binary vectors as supports: subsets of 1..n.                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Xor(A, B) == (A \ B) \cup (B \ A)
\* every sum of some of the rows, the empty sum first, with repetitions
Sums(M) == FoldLeft(LAMBDA acc, row : acc \o TLCEval([i \in 1..Len(acc) |-> Xor(acc[i], row)]), <<{}>>, M)
\* the number of qubits on which the Pauli string with X support x and Z support z acts,
\* given as the support x \cup (z + n) in 1..2n
Acts(A, n) == {IF i > n THEN i - n ELSE i : i \in A}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* lightest sum of a nonempty selection of rows of L and any selection of rows of S
Lightest(L, S, n) ==
    LET l == Sums(L) s == Sums(S)
    IN  Least(UNION {{Cardinality(Acts(Xor(l[i], s[j]), n)) : j \in 1..Len(s)} : i \in 2..Len(l)})
\* lightest nonzero sum; lightest difference with v
LightestNonzero(G) == LET l == Sums(G) IN Least({Cardinality(l[i]) : i \in {j \in 1..Len(l) : l[j] # {}}})
NearestSum(G, v) == LET l == Sums(G) IN Least({Cardinality(Xor(l[i], v)) : i \in 1..Len(l)})
Distinct(G) == LET l == Sums(G) IN Cardinality({l[i] : i \in 1..Len(l)})
Log2(m) == CHOOSE k \in 0..12 : 2 ^ k = m
===============================================================================
