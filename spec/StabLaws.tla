------------------------------- MODULE StabLaws -------------------------------
(***************************************************************************)
(* Theorems of the specification, checked on every code with at most R     *)
(* parity checks on N qudits over GF(Q): the dimension accounting, the     *)
(* existence of the operator bases that the trace specification demands,   *)
(* and that the derivations preserve what they are claimed to preserve.    *)
(* A behaviour adds parity checks one at a time.                           *)
(***************************************************************************)
EXTENDS CodeTrace
CONSTANTS Q, N, R
VARIABLE M
Vectors == {TLCEval([i \in 1..2*N |-> f[i]]) : f \in [1..2*N -> 0..Q-1]}
LInit == M = << >> /\ cs = 0 /\ ix = 0 /\ st = 0
LNext == Len(M) < R /\ \E v \in Vectors : M' = Append(M, v) /\ UNCHANGED <<cs, ix, st>>
LSpec == LInit /\ [][LNext]_<<M, cs, ix, st>>

info == CodeInfo(Q, N, M)
Accounting ==
    LET i == info IN
    /\ i.k + i.s + i.g = N /\ i.rank = i.s + 2 * i.g /\ i.k >= 0 /\ i.g >= 0
    /\ i.sub = (i.g > 0)
    /\ RREF(Q, i.S \o i.G, 2*N) = i.G
    \* the definition of the centre agrees with the elementary one
    /\ {v \in SpanSet(Q, i.G, 2*N) : \A w \in SpanSet(Q, i.G, 2*N) : Symp(Q, v, w, N) = 0}
         = SpanSet(Q, i.S, 2*N)
\* symplectic Gram-Schmidt: a canonical basis of the span of W modulo its centre
RECURSIVE Pairs(_, _, _)
Pairs(W, X, Z) ==
    IF W = << >> THEN X \o Z
    ELSE LET w == W[1] rest == Tail(W)
             hits == {j \in 1..Len(rest) : Symp(Q, w, rest[j], N) # 0}
         IN  IF hits = {} THEN Pairs(rest, X, Z)
             ELSE LET j == CHOOSE j \in hits : \A h \in hits : j <= h
                      z == VScale(Q, Inv(Q, Symp(Q, w, rest[j], N)), rest[j])
                      fixed == TLCEval([i \in 1..Len(rest) |->
                                 VAxpy(Q, Symp(Q, z, rest[i], N), w,
                                       VAxpy(Q, Neg(Q, Symp(Q, w, rest[i], N)), z, rest[i]))])
                  IN  Pairs([i \in 1..Len(rest) - 1 |-> IF i < j THEN fixed[i] ELSE fixed[i + 1]],
                            Append(X, w), Append(Z, z))
Logicals(i) == Pairs(Centralizer(Q, i.G, N), << >>, << >>)
Gauges(i) == Pairs(i.G, << >>, << >>)
\* valid logical and gauge operators exist for every code
Operators == ValidLogicals(info, Logicals(info)) /\ ValidGauges(info, Gauges(info))
Same(i, j) == i.k = j.k /\ i.g = j.g /\ i.s = j.s /\ i.rank = j.rank
\* conjugation, Clifford deformation, stacking and concatenation preserve what they should
Derived ==
    LET i == info L == Logicals(info) IN
    /\ \A S \in SUBSET (1..N) : LET j == CodeInfo(Q, N, ConjF(i, S, M)) IN
          Same(i, j) /\ ValidLogicals(j, ConjF(i, S, L)) /\ ConjB(i, S, ConjF(i, S, M)) = M
    /\ Q = 2 => \A op \in {[g |-> g, t |-> <<1>>] : g \in {"H", "S", "S_DAG", "SQRT_X", "C_XYZ", "C_ZYX"}}
                          \cup (IF N < 2 THEN {} ELSE {[g |-> g, t |-> <<1, 2>>] : g \in {"CX", "CZ", "CY", "SWAP", "ISWAP"}}) :
          LET j == CodeInfo(Q, N, Deformed(i, <<op>>, M)) IN
             Same(i, j) /\ ValidLogicals(j, Deformed(i, <<op>>, L))
    /\ LET j == CodeInfo(Q, 2*N, Stacked(<<M, M>>, <<N, N>>)) IN
          j.k = 2 * i.k /\ j.g = 2 * i.g /\ j.s = 2 * i.s /\ ValidLogicals(j, StackedL(<<L, L>>, <<N, N>>))
    /\ i.k > 0 =>
         LET e == [how |-> "default", w |-> << >>]
             D == ConcatData(e, i, i, L, L)
             j == CodeInfo(Q, D.n, D.M)
         IN  j.k = i.k * i.k /\ ValidLogicals(j, D.L)
================================================================================
