--------------------------------- MODULE Stab ---------------------------------
(***************************************************************************)
(* Stabilizer and subsystem codes over GF(q) as symplectic linear algebra. *)
(* A Pauli string on n qudits is a vector [x | z] of length 2n; two Pauli  *)
(* strings commute iff their symplectic product vanishes.  The parity      *)
(* checks of a code generate its gauge group G; its stabilizers S are the  *)
(* centre of G; bare logical operators are the centralizer of G, modulo S. *)
(***************************************************************************)
EXTENDS GF

XPart(v, n) == SubSeq(v, 1, n)
ZPart(v, n) == SubSeq(v, n + 1, 2 * n)
Symp(q, u, v, n) ==
    Sub(q, Dot(q, XPart(u, n), ZPart(v, n)), Dot(q, ZPart(u, n), XPart(v, n)))
\* the vector v' with v'.w = Symp(v, w)
SConj(q, v, n) == VNeg(q, ZPart(v, n)) \o XPart(v, n)
SConjM(q, M, n) == TLCEval([i \in 1..Len(M) |-> SConj(q, M[i], n)])
Gram(q, A, B, n) == MulT(q, SConjM(q, A, n), B)
Commute(q, A, B, n) == AllZero(Gram(q, A, B, n))
\* weight of a Pauli string: number of qudits acted on
SWeight(v, n) == Cardinality({i \in 1..n : v[i] # 0 \/ v[n + i] # 0})

\* generators of the centre of the group generated by the rows of G
Centre(q, G, n) ==
    LET R == RREF(q, G, 2 * n)
        A == Gram(q, R, R, n)
        K == NullSpace(q, Transpose(A, Len(R)), Len(R))
    IN  RREF(q, MatMul(q, K, R, 2 * n), 2 * n)
\* generators of everything that commutes with G
Centralizer(q, G, n) == RREF(q, NullSpace(q, SConjM(q, G, n), 2 * n), 2 * n)

\* everything there is to know about the code with parity checks M
CodeInfo(q, n, M) ==
    LET G == RREF(q, M, 2 * n)
        S == Centre(q, G, n)
        gg == (Len(G) - Len(S)) \div 2
    IN  [q |-> q, n |-> n, M |-> M, G |-> G, S |-> S, rank |-> Len(G), s |-> Len(S), g |-> gg,
         k |-> n - Len(S) - gg, sub |-> Len(G) # Len(S)]

IsMat(q, A, m, w) == /\ Len(A) = m
                     /\ \A i \in 1..m : Len(A[i]) = w /\ \A j \in 1..w : A[i][j] \in 0..q-1
Rect(q, A, w) == \A i \in 1..Len(A) : Len(A[i]) = w /\ \A j \in 1..w : A[i][j] \in 0..q-1

\* the 2k rows of L are k canonically conjugate pairs <L_i, L_{i+k}>
Canonical(q, L, n) ==
    LET k == Len(L) \div 2
        A == Gram(q, L, L, n)
    IN  /\ Len(L) % 2 = 0
        /\ \A i \in 1..Len(L), j \in 1..Len(L) :
              A[i][j] = IF j = i + k THEN 1 ELSE IF i = j + k THEN Neg(q, 1) ELSE 0
\* L is a full set of (bare) logical operators of the code
ValidLogicals(info, L) ==
    /\ IsMat(info.q, L, 2 * info.k, 2 * info.n)
    /\ Canonical(info.q, L, info.n)
    /\ Commute(info.q, info.G, L, info.n)
ValidGauges(info, L) ==
    /\ IsMat(info.q, L, 2 * info.g, 2 * info.n)
    /\ Canonical(info.q, L, info.n)
    /\ RREF(info.q, info.S \o L, 2 * info.n) = info.G
XType(v, n) == IsZero(ZPart(v, n))
ZType(v, n) == IsZero(XPart(v, n))
AllX(A, n) == \A i \in 1..Len(A) : XType(A[i], n)
AllZ(A, n) == \A i \in 1..Len(A) : ZType(A[i], n)
IsCSSMatrix(M, n) == \A i \in 1..Len(M) : XType(M[i], n) \/ ZType(M[i], n)

(* ---- derived codes -------------------------------------------------------- *)
\* apply f to the X/Z entries (a, b) of the qudits in Q
MapSites(v, n, Q, F(_, _)) ==
    TLCEval([j \in 1..2*n |->
        IF j <= n THEN (IF j \in Q THEN F(v[j], v[n + j])[1] ELSE v[j])
        ELSE (IF (j - n) \in Q THEN F(v[j - n], v[j])[2] ELSE v[j])])
\* Fourier gate on the qudits in Q: X -> Z, Z -> X^-1  (for qubits: Hadamard), up to phase
Fourier(q, v, n, Q) == MapSites(v, n, Q, LAMBDA a, b : <<Neg(q, b), a>>)
\* its inverse: X -> Z^-1, Z -> X
InvFourier(q, v, n, Q) == MapSites(v, n, Q, LAMBDA a, b : <<b, Neg(q, a)>>)

\* qubit Clifford gates, on vectors over GF(2) (phases dropped); sites are 1-based
GateH(v, n, a) == MapSites(v, n, {a}, LAMBDA x, z : <<z, x>>)
GateS(v, n, a) == MapSites(v, n, {a}, LAMBDA x, z : <<x, (x + z) % 2>>)
GateSX(v, n, a) == MapSites(v, n, {a}, LAMBDA x, z : <<(x + z) % 2, z>>)
GateCXYZ(v, n, a) == MapSites(v, n, {a}, LAMBDA x, z : <<(x + z) % 2, x>>)    \* X->Y->Z->X
GateCZYX(v, n, a) == MapSites(v, n, {a}, LAMBDA x, z : <<z, (x + z) % 2>>)    \* X->Z->Y->X
GateCX(v, n, a, b) == [v EXCEPT ![b] = (v[a] + v[b]) % 2, ![n + a] = (v[n + a] + v[n + b]) % 2]
GateCZ(v, n, a, b) == [v EXCEPT ![n + a] = (v[n + a] + v[b]) % 2, ![n + b] = (v[n + b] + v[a]) % 2]
GateSWAP(v, n, a, b) == [v EXCEPT ![a] = v[b], ![b] = v[a], ![n + a] = v[n + b], ![n + b] = v[n + a]]
ApplyGate(v, n, op) ==
    LET nm == op.g  a == op.t[1]  b == IF Len(op.t) > 1 THEN op.t[2] ELSE 0
    IN  CASE nm = "I" -> v
          [] nm \in {"X", "Y", "Z"} -> v
          [] nm = "H" -> GateH(v, n, a)
          [] nm \in {"S", "S_DAG"} -> GateS(v, n, a)
          [] nm \in {"SQRT_X", "SQRT_X_DAG"} -> GateSX(v, n, a)
          [] nm = "C_XYZ" -> GateCXYZ(v, n, a)
          [] nm = "C_ZYX" -> GateCZYX(v, n, a)
          [] nm = "CX" -> GateCX(v, n, a, b)
          [] nm = "CZ" -> GateCZ(v, n, a, b)
          [] nm = "CY" -> GateS(GateCX(GateS(v, n, b), n, a, b), n, b)
          [] nm = "SWAP" -> GateSWAP(v, n, a, b)
          [] nm \in {"ISWAP", "ISWAP_DAG"} -> GateSWAP(GateCZ(GateS(GateS(v, n, a), n, b), n, a, b), n, a, b)
ApplyCircuit(v, n, ops) == FoldLeft(LAMBDA w, op : ApplyGate(w, n, op), v, ops)

\* place the sites of the n-site vector v at positions pos[1..n] of an N-site vector
Embed(v, n, pos, N) ==
    TLCEval([j \in 1..2*N |->
        LET jj == IF j <= N THEN j ELSE j - N
            hit == {i \in 1..n : pos[i] = jj}
        IN  IF hit = {} THEN 0
            ELSE LET i == CHOOSE i \in hit : TRUE IN IF j <= N THEN v[i] ELSE v[n + i]])
Shifted(n, off) == TLCEval([i \in 1..n |-> off + i])
===============================================================================
