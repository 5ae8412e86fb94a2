------------------------------- MODULE Clifford -------------------------------
(***************************************************************************)
(* Qubit Pauli operators with their phases, and Clifford circuits acting   *)
(* on them by conjugation.  A phased Pauli [p, v] on n qubits, v = [x|z],  *)
(* is the operator i^p X^x Z^z; the Hermitian operator with sign (-1)^s is *)
(* the one with p = 2 s + (number of Y factors).                           *)
(***************************************************************************)
EXTENDS Stab

NumY(v, n) == Cardinality({i \in 1..n : v[i] = 1 /\ v[n + i] = 1})
Phased(n, s, v) == [p |-> (2 * s + NumY(v, n)) % 4, v |-> v]
Plus(n, v) == Phased(n, 0, v)
PMul(n, A, B) == [p |-> (A.p + B.p + 2 * Dot(2, ZPart(A.v, n), XPart(B.v, n))) % 4, v |-> VAdd(2, A.v, B.v)]
POne(n) == [p |-> 0, v |-> ZeroVec(2 * n)]
Hermitian(n, A) == (A.p - NumY(A.v, n)) % 2 = 0
PSign(n, A) == ((A.p - NumY(A.v, n)) % 4) \div 2
PProd(n, As) == FoldLeft(LAMBDA acc, i : PMul(n, acc, As[i]), POne(n), Idx[Len(As)])

(* ---- gates: the standard update rules for H, S and CX; all others by decomposition -------- *)
Flip(A, c) == IF c THEN [A EXCEPT !.s = 1 - A.s] ELSE A
SgH(n, A, a) == [s |-> (A.s + A.v[a] * A.v[n + a]) % 2, v |-> GateH(A.v, n, a)]
SgS(n, A, a) == [s |-> (A.s + A.v[a] * A.v[n + a]) % 2, v |-> GateS(A.v, n, a)]
SgCX(n, A, a, b) == [s |-> (A.s + A.v[a] * A.v[n + b] * ((A.v[b] + A.v[n + a] + 1) % 2)) % 2, v |-> GateCX(A.v, n, a, b)]
\* "h", "s" on site a or b; "c" = CX from a to b, "d" = CX from b to a; in order of application
Decomposed == [
    I |-> << >>, H |-> <<"h">>, S |-> <<"s">>, S_DAG |-> <<"s", "s", "s">>, Z |-> <<"s", "s">>,
    X |-> <<"h", "s", "s", "h">>, Y |-> <<"s", "s", "h", "s", "s", "h">>,
    SQRT_X |-> <<"h", "s", "h">>, SQRT_X_DAG |-> <<"h", "s", "s", "s", "h">>,
    SQRT_Y |-> <<"s", "s", "h">>, SQRT_Y_DAG |-> <<"h", "s", "s">>,
    H_XY |-> <<"h", "s", "s", "h", "s">>, H_YZ |-> <<"h", "s", "h", "s", "s">>,
    C_XYZ |-> <<"s", "s", "s", "h">>, C_ZYX |-> <<"h", "s">>,
    CX |-> <<"c">>, CZ |-> <<"h2", "c", "h2">>, CY |-> <<"s2", "s2", "s2", "c", "s2">>, SWAP |-> <<"c", "d", "c">>,
    ISWAP |-> <<"c", "d", "c", "h2", "c", "h2", "s", "s2">>, ISWAP_DAG |-> <<"c", "d", "c", "h2", "c", "h2", "s", "s", "s", "s2", "s2", "s2">>]
Elementary(n, A, x, a, b) ==
    CASE x = "h" -> SgH(n, A, a) [] x = "s" -> SgS(n, A, a) [] x = "h2" -> SgH(n, A, b) [] x = "s2" -> SgS(n, A, b)
      [] x = "c" -> SgCX(n, A, a, b) [] x = "d" -> SgCX(n, A, b, a)
SignedGate(n, A, op) == FoldLeft(LAMBDA acc, x : Elementary(n, acc, x, op.t[1], IF Len(op.t) > 1 THEN op.t[2] ELSE 0), A, Decomposed[op.g])
SignedCircuit(n, ops, A) == FoldLeft(LAMBDA acc, op : SignedGate(n, acc, op), A, ops)
\* the image of a phased Pauli: i^p X^x Z^z = i^(p - #Y) * Hermitian
ImageOf(n, ops, P) ==
    LET r == SignedCircuit(n, ops, [s |-> 0, v |-> P.v])
    IN  [p |-> (P.p - NumY(P.v, n) + 2 * r.s + NumY(r.v, n)) % 4, v |-> r.v]

(* ---- groups of phased Paulis ------------------------------------------------------------- *)
PStep(n, st, col) ==
    LET todo == st[2]
        hits == {i \in 1..Len(todo) : todo[i].v[col] # 0}
    IN  IF hits = {} THEN st
        ELSE LET p == CHOOSE i \in hits : \A j \in hits : i <= j
                 row == todo[p]
                 clear(A) == IF A.v[col] = 0 THEN A ELSE PMul(n, A, row)
                 d2 == TLCEval([i \in 1..Len(st[1]) |-> clear(st[1][i])])
                 t1 == TLCEval([i \in 1..Len(todo) - 1 |-> clear(todo[IF i < p THEN i ELSE i + 1])])
             IN  <<Append(d2, row), t1>>
\* generators in reduced form, and the relations found (which must be the identity for a group without -1)
PReduced(n, As) == FoldLeft(LAMBDA st, col : PStep(n, st, col), <<<< >>, As>>, Idx[2 * n])
PBasis(n, As) == PReduced(n, As)[1]
\* A is in the group generated by the commuting reduced generators R, with its phase
PIn(n, R, A) ==
    LET res == FoldLeft(LAMBDA acc, i : IF acc.v[LeadCol(R[i].v)] = 0 THEN acc ELSE PMul(n, acc, R[i]), A, Idx[Len(R)])
    IN  IsZero(res.v) /\ res.p = 0
\* the operator on n qubits that the k-qubit signed Pauli w = [s, v] stands for, given logical operators L (2k rows)
Logical(n, k, L, w) ==
    LET xs == FoldLeft(LAMBDA acc, i : IF w.v[i] = 0 THEN acc ELSE PMul(n, acc, Plus(n, L[i])), POne(n), Idx[k])
        all == FoldLeft(LAMBDA acc, i : IF w.v[k + i] = 0 THEN acc ELSE PMul(n, acc, Plus(n, L[k + i])), xs, Idx[k])
    IN  [all EXCEPT !.p = (all.p + 2 * w.s + NumY(w.v, k)) % 4]
Unit(n, j) == [s |-> 0, v |-> UnitVec(2 * n, j)]

(* ---- transversal operations: local Paulis permuted, then sites permuted ------------------- *)
Loc1 == [I |-> <<<<1, 0>>, <<0, 1>>>>, H |-> <<<<0, 1>>, <<1, 0>>>>, S |-> <<<<1, 1>>, <<0, 1>>>>, SQRT_X |-> <<<<1, 0>>, <<1, 1>>>>]
AllLoc == {m \in [1..2 -> {<<0, 1>>, <<1, 0>>, <<1, 1>>}] : m[1] # m[2]}
\* rows: images of X and of Z
LocalSet(gates) == LET g == gates \ {"SWAP"} IN IF g = {} THEN {Loc1.I} ELSE IF Cardinality(g) = 1 THEN {Loc1.I, Loc1[CHOOSE x \in g : TRUE]} ELSE AllLoc
SitePerms(n, gates) == IF "SWAP" \in gates THEN {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j} ELSE {[i \in 1..n |-> i]}
\* v'[pi(a)] = v[a] . m[a]
Transversal(n, pi, m, v) ==
    TLCEval([j \in 1..2 * n |->
        LET jj == IF j <= n THEN j ELSE j - n
            a == CHOOSE a \in 1..n : pi[a] = jj
            c == IF j <= n THEN 1 ELSE 2
        IN  (v[a] * m[a][1][c] + v[n + a] * m[a][2][c]) % 2])
Elements(n, gates) == SitePerms(n, gates) \X [1..n -> LocalSet(gates)]
\* operations that preserve the space spanned by the rows of G
Preserving(n, gates, G) ==
    LET span == SpanSet(2, G, 2 * n)
    IN  {f \in Elements(n, gates) : \A i \in 1..Len(G) : Transversal(n, f[1], f[2], G[i]) \in span}
\* the circuit consists of Paulis, allowed single-qubit gates and, if allowed, a permutation of the qubits
IsTransversal(n, gates, ops) ==
    LET im == TLCEval([j \in 1..2 * n |-> SignedCircuit(n, ops, Unit(n, j)).v])
        supp(v) == {i \in 1..n : v[i] # 0 \/ v[n + i] # 0}
    IN  \A a \in 1..n : \E b \in (IF "SWAP" \in gates THEN 1..n ELSE {a}) :
           /\ supp(im[a]) = {b} /\ supp(im[n + a]) = {b}
           /\ <<<<im[a][b], im[a][n + b]>>, <<im[n + a][b], im[n + a][n + b]>>>> \in LocalSet(gates)
===============================================================================
