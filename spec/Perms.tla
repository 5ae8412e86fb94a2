-------------------------------- MODULE Perms --------------------------------
(***************************************************************************)
(* Finite permutation groups.  A permutation of {0..n-1} is the sequence   *)
(* of its images; products compose left to right, (p*q)(i) = q(p(i)).      *)
(***************************************************************************)
EXTENDS GF
PMul(p, q) == TLCEval([i \in 1..Len(p) |-> q[p[i] + 1]])
PId(n) == TLCEval([i \in 1..n |-> i - 1])
PInv(p) == TLCEval([i \in 1..Len(p) |-> (CHOOSE j \in 1..Len(p) : p[j] = i - 1) - 1])
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..Len(p)} = 0..n-1
RECURSIVE GrowSet(_, _, _)
\* closure of S under right multiplication by generators
GrowSet(S, new, gens) ==
    IF new = {} THEN S
    ELSE LET next == TLCEval({PMul(x, g) : x \in new, g \in gens} \ S) IN GrowSet(TLCEval(S \cup next), next, gens)
Closure(gens, n) == GrowSet({PId(n)}, {PId(n)}, gens)
\* tensor product: act on disjoint sets of points
PTensor(p, q) == p \o TLCEval([i \in 1..Len(q) |-> q[i] + Len(p)])
PMat(p) == TLCEval([i \in 1..Len(p) |-> TLCEval([j \in 1..Len(p) |-> IF p[i] = j - 1 THEN 1 ELSE 0])])
---------------------------------------------------------------------------
\* the named groups, as sets of permutations
Rotation(n, k) == TLCEval([i \in 1..n |-> (i - 1 + k) % n])
Reflection(n, k) == TLCEval([i \in 1..n |-> (k - (i - 1) + n) % n])
CyclicSet(n) == {Rotation(n, k) : k \in 0..n-1}
RECURSIVE AbelianSet(_)
AbelianSet(orders) == IF Len(orders) = 1 THEN CyclicSet(orders[1])
                      ELSE {PTensor(p, r) : p \in CyclicSet(orders[1]), r \in AbelianSet(Tail(orders))}
SymSet(n) == {p \in [1..n -> 0..n-1] : {p[i] : i \in 1..n} = 0..n-1}
Even(p) == Cardinality({t \in (1..Len(p)) \X (1..Len(p)) : t[1] < t[2] /\ p[t[1]] > p[t[2]]}) % 2 = 0
AltSet(n) == {p \in SymSet(n) : Even(p)}
DihedralSet(n) == CASE n = 1 -> SymSet(2)
                    [] n = 2 -> Closure({<<1, 0, 3, 2>>, <<2, 3, 0, 1>>}, 4)
                    [] OTHER -> CyclicSet(n) \cup {Reflection(n, k) : k \in 0..n-1}
DirectSet(A, B) == {PTensor(p, r) : p \in A, r \in B}
---------------------------------------------------------------------------
\* multiplication tables (entries are 0-based indices into the sequence of members)
TableOK(mem, tab) == LET N == Len(mem) IN
    Len(tab) = N /\ \A i \in 1..N : Len(tab[i]) = N /\
        \A j \in 1..N : tab[i][j] \in 0..N-1 /\ mem[tab[i][j] + 1] = PMul(mem[i], mem[j])
\* ldiv[i][k] = j such that member i times member j is member k  (all 1-based)
LDiv(tab) == TLCEval([i \in 1..Len(tab) |-> TLCEval([k \in 1..Len(tab) |-> CHOOSE j \in 1..Len(tab) : tab[i][j] = k - 1])])
IdIx(tab) == CHOOSE i \in 1..Len(tab) : \A j \in 1..Len(tab) : tab[i][j] = j - 1
InvIx(tab) == LET e == IdIx(tab) IN TLCEval([i \in 1..Len(tab) |-> CHOOSE j \in 1..Len(tab) : tab[i][j] = e - 1])
\* is t the table of a group?
IsGroupTable(t) == LET N == Len(t) IN
    /\ \E e \in 1..N : \A j \in 1..N : t[e][j] = j - 1 /\ t[j][e] = j - 1
    /\ \A i \in 1..N : {t[i][j] : j \in 1..N} = 0..N-1 /\ {t[j][i] : j \in 1..N} = 0..N-1
    /\ \A i, j, k \in 1..N : t[t[i][j] + 1][k] = t[i][t[j][k] + 1]
===============================================================================
