---------------------------------- MODULE GF ----------------------------------
(***************************************************************************)
(* Exact linear algebra over the finite fields GF(2), GF(3), GF(4), GF(5), *)
(* GF(7), GF(8), GF(9).  Field elements are integers 0..q-1 in the usual   *)
(* polynomial-as-integer encoding (the one the galois package displays).   *)
(* Vectors are sequences; matrices are sequences of equally long vectors.  *)
(* This module is the oracle: it shares no code with the implementation.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Prime(q) == q \in {2, 3, 5, 7, 11, 13}

(* ---- extension fields: polynomials over GF(p) encoded base p ------------ *)
PChar(q) == CASE q \in {2, 4, 8, 16} -> 2
              [] q \in {3, 9} -> 3
              [] OTHER -> q
PDeg(q) == CASE q \in {4, 9} -> 2 [] q = 8 -> 3 [] q = 16 -> 4 [] OTHER -> 1
\* the (Conway) irreducible polynomial, low coefficients: x^d = - sum IrrLow[i] x^(i-1)
IrrLow(q) == CASE q = 4 -> <<1, 1>>           \* x^2 + x + 1
               [] q = 8 -> <<1, 1, 0>>        \* x^3 + x + 1
               [] q = 16 -> <<1, 1, 0, 0>>    \* x^4 + x + 1
               [] q = 9 -> <<2, 2>>           \* x^2 + 2x + 2
Pow(b, e) == b ^ e
Digits(q, a) == LET p == PChar(q) IN [i \in 1..PDeg(q) |-> (a \div Pow(p, i-1)) % p]
RECURSIVE UnDigitsR(_, _, _)
UnDigitsR(p, d, i) == IF i > Len(d) THEN 0 ELSE d[i] * Pow(p, i-1) + UnDigitsR(p, d, i+1)
UnDigits(q, d) == UnDigitsR(PChar(q), d, 1)
ExtAdd(q, a, b) == LET p == PChar(q) x == Digits(q, a) y == Digits(q, b)
                   IN  UnDigits(q, [i \in 1..PDeg(q) |-> (x[i] + y[i]) % p])
\* multiply the polynomial d by x modulo the irreducible polynomial
MulX(q, d) == LET p == PChar(q) n == PDeg(q) top == d[n] irr == IrrLow(q)
              IN  [i \in 1..n |-> ((IF i = 1 THEN 0 ELSE d[i-1]) + (p - 1) * top * irr[i]) % p]
RECURSIVE ExtMulR(_, _, _, _)
ExtMulR(q, x, y, i) ==
    IF i > PDeg(q) THEN [j \in 1..PDeg(q) |-> 0]
    ELSE LET r == ExtMulR(q, MulX(q, x), y, i + 1)
         IN  [j \in 1..PDeg(q) |-> (x[j] * y[i] + r[j]) % PChar(q)]
ExtMul(q, a, b) == UnDigits(q, ExtMulR(q, Digits(q, a), Digits(q, b), 1))

Fields == {2, 3, 4, 5, 7, 8, 9, 11, 13, 16}
AddTab == [q \in Fields |-> TLCEval([a \in 0..q-1 |-> TLCEval([b \in 0..q-1 |->
             IF Prime(q) THEN (a + b) % q ELSE ExtAdd(q, a, b)])])]
MulTab == [q \in Fields |-> TLCEval([a \in 0..q-1 |-> TLCEval([b \in 0..q-1 |->
             IF Prime(q) THEN (a * b) % q ELSE ExtMul(q, a, b)])])]
NegTab == [q \in Fields |-> TLCEval([a \in 0..q-1 |->
             CHOOSE b \in 0..q-1 : AddTab[q][a][b] = 0])]
InvTab == [q \in Fields |-> TLCEval([a \in 0..q-1 |->
             IF a = 0 THEN 0 ELSE CHOOSE b \in 0..q-1 : MulTab[q][a][b] = 1])]
\* (prime fields avoid the tables: TLC evaluates modular arithmetic several times faster)
Add(q, a, b) == IF Prime(q) THEN (a + b) % q ELSE AddTab[q][a][b]
Mul(q, a, b) == IF Prime(q) THEN (a * b) % q ELSE MulTab[q][a][b]
Neg(q, a) == IF Prime(q) THEN (q - a) % q ELSE NegTab[q][a]
Inv(q, a) == InvTab[q][a]
Sub(q, a, b) == Add(q, a, Neg(q, b))

(* ---- vectors -------------------------------------------------------------- *)
ZeroVec(n) == TLCEval([i \in 1..n |-> 0])
UnitVec(n, j) == TLCEval([i \in 1..n |-> IF i = j THEN 1 ELSE 0])
VAdd(q, u, v) == IF Prime(q) THEN TLCEval([i \in 1..Len(u) |-> (u[i] + v[i]) % q])
                 ELSE LET at == AddTab[q] IN TLCEval([i \in 1..Len(u) |-> at[u[i]][v[i]]])
VScale(q, c, u) == IF Prime(q) THEN TLCEval([i \in 1..Len(u) |-> (c * u[i]) % q])
                   ELSE LET mt == MulTab[q][c] IN TLCEval([i \in 1..Len(u) |-> mt[u[i]]])
\* c u + v
VAxpy(q, c, u, v) == IF Prime(q) THEN TLCEval([i \in 1..Len(u) |-> (c * u[i] + v[i]) % q])
                     ELSE LET at == AddTab[q] mt == MulTab[q][c]
                          IN  TLCEval([i \in 1..Len(u) |-> at[mt[u[i]]][v[i]]])
VNeg(q, u) == VScale(q, Neg(q, 1), u)
VSub(q, u, v) == VAxpy(q, Neg(q, 1), v, u)
IsZero(v) == \A i \in 1..Len(v) : v[i] = 0
Weight(v) == Cardinality({i \in 1..Len(v) : v[i] # 0})
Idx == [n \in 0..260 |-> TLCEval([i \in 1..n |-> i])]       \* <<1, .., n>>, for folds
Dot(q, u, v) ==
    IF Prime(q) THEN FoldLeft(LAMBDA acc, i : acc + u[i] * v[i], 0, Idx[Len(u)]) % q
    ELSE LET at == AddTab[q] mt == MulTab[q]
         IN  FoldLeft(LAMBDA acc, i : at[acc][mt[u[i]][v[i]]], 0, Idx[Len(u)])
LeadCol(v) == IF IsZero(v) THEN 0 ELSE CHOOSE i \in 1..Len(v) : v[i] # 0 /\ \A j \in 1..i-1 : v[j] = 0

(* ---- matrices ------------------------------------------------------------- *)
Cols(M, n) == IF M = << >> THEN n ELSE Len(M[1])
Transpose(M, n) == TLCEval([j \in 1..n |-> TLCEval([i \in 1..Len(M) |-> M[i][j]])])
ZeroMat(m, n) == TLCEval([i \in 1..m |-> ZeroVec(n)])
Identity(n) == TLCEval([i \in 1..n |-> UnitVec(n, i)])
MatVec(q, M, v) == TLCEval([i \in 1..Len(M) |-> Dot(q, M[i], v)])
\* A B^T : all pairwise dot products of rows
MulT(q, A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B) |-> Dot(q, A[i], B[j])])])
\* v M  (row vector times matrix with n columns)
VecMat(q, v, M, n) == FoldLeft(LAMBDA acc, i : IF v[i] = 0 THEN acc ELSE VAxpy(q, v[i], M[i], acc),
                               ZeroVec(n), Idx[Len(v)])
MatMul(q, A, B, n) == TLCEval([i \in 1..Len(A) |-> VecMat(q, A[i], B, n)])
AllZero(M) == \A i \in 1..Len(M) : IsZero(M[i])
MAdd(q, A, B) == TLCEval([i \in 1..Len(A) |-> VAdd(q, A[i], B[i])])
PickCols(M, cols) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(cols) |-> M[i][cols[j]]])])
HCat(A, B) == TLCEval([i \in 1..Len(A) |-> A[i] \o B[i]])
Kron(q, A, na, B, nb) ==
   TLCEval([r \in 1..(Len(A) * Len(B)) |->
      TLCEval([c \in 1..(na * nb) |->
         Mul(q, A[((r-1) \div Len(B)) + 1][((c-1) \div nb) + 1],
                B[((r-1) % Len(B)) + 1][((c-1) % nb) + 1])])])

(* Reduced row echelon form, zero rows dropped. *)
\* One elimination step: st = <<finished pivot rows, remaining rows>>, col = column inspected.
\* (Folds, not recursion: TLC resolves global names by walking the evaluation context.)
RREFStep(q, st, col) ==
    LET todo == st[2]
        hits == {i \in 1..Len(todo) : todo[i][col] # 0}
    IN  IF hits = {} THEN st
        ELSE LET p == CHOOSE i \in hits : \A j \in hits : i <= j
                 row == VScale(q, Inv(q, todo[p][col]), todo[p])
                 clear(v) == IF v[col] = 0 THEN v ELSE VAxpy(q, Neg(q, v[col]), row, v)
                 d2 == TLCEval([i \in 1..Len(st[1]) |-> clear(st[1][i])])
                 t1 == TLCEval([i \in 1..Len(todo) - 1 |-> clear(todo[IF i < p THEN i ELSE i + 1])])
             IN  <<Append(d2, row), t1>>
RREF(q, M, n) == FoldLeft(LAMBDA st, col : RREFStep(q, st, col), <<<< >>, M>>, Idx[n])[1]
Rank(q, M, n) == Len(RREF(q, M, n))
Pivots(R) == TLCEval([i \in 1..Len(R) |-> LeadCol(R[i])])
\* a basis of {x : M x = 0}
NullSpace(q, M, n) ==
    LET R == RREF(q, M, n)
        piv == Pivots(R)
        pset == {piv[i] : i \in 1..Len(piv)}
        free == SetToSortSeq((1..n) \ pset, LAMBDA a, b : a < b)
    IN  TLCEval([k \in 1..Len(free) |->
          TLCEval([j \in 1..n |->
             IF j = free[k] THEN 1
             ELSE IF j \in pset
                  THEN LET r == CHOOSE i \in 1..Len(piv) : piv[i] = j IN Neg(q, R[r][free[k]])
                  ELSE 0])])
\* reduce v modulo a matrix R in reduced row echelon form
Residue(q, R, v) ==
    FoldLeft(LAMBDA acc, i : LET c == acc[LeadCol(R[i])]
                             IN IF c = 0 THEN acc ELSE VAxpy(q, Neg(q, c), R[i], acc),
             v, Idx[Len(R)])
InRowSpace(q, R, v) == IsZero(Residue(q, R, v))           \* R in RREF
SameSpan(q, A, B, n) == RREF(q, A, n) = RREF(q, B, n)
SubSpan(q, A, B, n) == LET R == RREF(q, B, n) IN \A i \in 1..Len(A) : InRowSpace(q, R, A[i])
IsBasis(q, A, n) == Rank(q, A, n) = Len(A)

(* Every vector of the row space of the (independent) rows M, by recursion. *)
RECURSIVE SpanSet(_, _, _)
SpanSet(q, M, n) == IF M = << >> THEN {ZeroVec(n)}
                    ELSE LET S == SpanSet(q, Tail(M), n)
                         IN  UNION {{VAxpy(q, c, M[1], v) : v \in S} : c \in 0..q-1}
===============================================================================
