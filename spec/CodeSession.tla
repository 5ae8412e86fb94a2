------------------------------ MODULE CodeSession ------------------------------
(***************************************************************************)
(* Sessions of a user working with a family of quantum codes.              *)
(*                                                                         *)
(* State: the codes built so far (objs), each summarised by what its user  *)
(* can know about it without asking (field, length, logical and gauge      *)
(* qudits, CSS or not).  Actions: build a code, ask it a question, replace *)
(* its logical operators, or derive a new code from it (conjugate, deform, *)
(* dualise, canonicalise, stack, concatenate).  The log of actions is the  *)
(* script that the conformance harness replays into the implementation;    *)
(* the meaning of every action is specified in CodeTrace.                  *)
(***************************************************************************)
EXTENDS Stab, Json

CONSTANTS Qs,        \* sequence of field orders to draw from (repetition = weight)
          MaxN,      \* function q -> largest length of a base code
          MaxDerN,   \* largest length of any derived code, as function of q
          Steps,     \* number of actions after the first
          Kinds      \* sequence of action kinds to draw from (repetition = weight)
VARIABLES objs, log, phase

vars == <<objs, log, phase>>
Rnd(S) == RandomElement(S)
RSeq(n, S) == TLCEval([i \in 1..n |-> RandomElement(S)])
RVec(q, n) == TLCEval([i \in 1..n |-> RandomElement(0..q-1)])
RMat(q, m, n) == TLCEval([i \in 1..m |-> RVec(q, n)])
Pick(s) == s[RandomElement(1..Len(s))]

Swap2(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
\* the permutation of 1..N encoded by the integers r (Fisher-Yates)
PermFrom(r, N) == FoldLeft(LAMBDA p, i : Swap2(p, i, i + (r[i] % (N - i + 1))), Idx[N], Idx[N])
Skip == UNCHANGED <<objs, log>>

(* ---- random codes with prescribed structure ------------------------------- *)
\* the standard code: stabilizers Z_1..Z_s, gauge pairs on the next g qudits
StdRows(n, s, g) ==
    TLCEval([i \in 1..s |-> UnitVec(2*n, n + i)]) \o
    TLCEval([i \in 1..g |-> UnitVec(2*n, s + i)]) \o
    TLCEval([i \in 1..g |-> UnitVec(2*n, n + s + i)])
\* symplectic transvection v -> v + c <v,t> t
Transvect(q, n, v, t, c) == VAxpy(q, Mul(q, c, Symp(q, v, t, n)), t, v)
ApplyTransvections(q, n, M, ts, cs) ==
    TLCEval([i \in 1..Len(M) |->
        FoldLeft(LAMBDA v, j : Transvect(q, n, v, ts[j], cs[j]), M[i], Idx[Len(ts)])])
\* elementary row operations: add cs[j] * row a[j] to row b[j]
MixRows(q, M, a, b, cs) ==
    FoldLeft(LAMBDA N, j : IF a[j] = b[j] \/ a[j] > Len(N) \/ b[j] > Len(N) THEN N
                           ELSE [N EXCEPT ![b[j]] = VAxpy(q, cs[j], N[a[j]], N[b[j]])],
             M, Idx[Len(a)])
\* append redundant rows (combinations of existing rows, possibly zero)
Redundant(q, M, w, combos) ==
    M \o TLCEval([i \in 1..Len(combos) |-> VecMat(q, SubSeq(combos[i], 1, Len(M)), M, w)])
BuildCode(q, n, s, g, r) ==
    LET R0 == StdRows(n, s, g)
        R1 == ApplyTransvections(q, n, R0, r.ts, r.cs)
        R2 == MixRows(q, R1, r.a, r.b, r.c2)
        R3 == Redundant(q, R2, 2*n, r.combos)
    IN  IF Len(R3) = 0 THEN ZeroMat(1, 2*n) ELSE MixRows(q, R3, r.a, r.b, r.c2)
RandData(q, n, nt) ==
    [ts |-> RMat(q, nt, 2*n), cs |-> RSeq(nt, 1..q-1),
     a |-> RSeq(2*n, 1..2*n), b |-> RSeq(2*n, 1..2*n), c2 |-> RSeq(2*n, 1..q-1),
     combos |-> RMat(q, Pick(<<0, 0, 0, 1, 1, 2>>), 2*n + 2)]

\* CSS: Z-checks arbitrary; X-checks drawn from the words orthogonal to them (stabilizer case)
\* or arbitrary (subsystem case)
BuildCSSX(q, n, Hz, mix, free) ==
    IF free THEN mix.hx
    ELSE LET K == NullSpace(q, Hz, n)
         IN  IF K = << >> THEN ZeroMat(1, n)
             ELSE TLCEval([i \in 1..Len(mix.rows) |-> VecMat(q, SubSeq(mix.rows[i], 1, Len(K)), K, n)])

Summary(q, n, M, css) == LET c == CodeInfo(q, n, M)
                         IN  [q |-> q, n |-> n, k |-> c.k, g |-> c.g, css |-> css, rank |-> c.rank]

NewCode ==
    \E q \in {Pick(Qs)} : \E n \in {Rnd(1..MaxN[q])} : \E sg \in {Rnd({sg \in (0..n) \X (0..n) : sg[1] + sg[2] <= n})} :
    \E nt \in {Pick(<<1, 2, n, 2 * n, 3 * n>>)} : \E r \in {RandData(q, n, nt)} :
    \E stab \in {Pick(<<TRUE, FALSE>>)} :
    \E M \in {BuildCode(q, n, sg[1], IF stab THEN 0 ELSE sg[2], r)} :
       /\ objs' = Append(objs, Summary(q, n, M, FALSE))
       /\ log' = Append(log, [op |-> "new", q |-> q, n |-> n, m |-> M, flag |-> Pick(<<"auto", "auto", "given">>)])

NewCSS ==
    \E q \in {Pick(Qs)} : \E n \in {Rnd(1..MaxN[q])} : \E mz \in {Rnd(1..n)} :
    \E Hz \in {RMat(q, mz, n)} : \E free \in {Pick(<<TRUE, FALSE, FALSE>>)} :
    \E mix \in {[hx |-> RMat(q, Rnd(1..n), n), rows |-> RMat(q, Rnd(1..n), n)]} :
    \E Hx \in {BuildCSSX(q, n, Hz, mix, free)} :
    \E sw \in {Pick(<<TRUE, FALSE>>)} :
    \E A \in {IF sw THEN Hz ELSE Hx} : \E B \in {IF sw THEN Hx ELSE Hz} :
    \E M \in {HCat(A, ZeroMat(Len(A), n)) \o HCat(ZeroMat(Len(B), n), B)} :
       /\ objs' = Append(objs, Summary(q, n, M, TRUE))
       /\ log' = Append(log, [op |-> "newcss", q |-> q, n |-> n, mx |-> A, mz |-> B,
                              flag |-> Pick(<<"auto", "auto", "given">>)])

Obj == Rnd(1..Len(objs))
Half == Pick(<<"", "", "", "X", "Z">>)
Bool == Rnd(BOOLEAN)
Say(e) == log' = Append(log, e)
Ask(e) == Say(e) /\ UNCHANGED objs

Logical == \E o \in {Obj} : Ask([op |-> "logical", o |-> o, pauli |-> Half, recompute |-> Pick(<<FALSE, FALSE, TRUE>>), symp |-> Bool])
StabQ == \E o \in {Obj} : Ask([op |-> "stab", o |-> o, pauli |-> Half, canon |-> Bool, recompute |-> Pick(<<FALSE, FALSE, TRUE>>), symp |-> Bool])
GaugeQ == \E o \in {Obj} : Ask([op |-> "gauge", o |-> o, pauli |-> Half, symp |-> Bool])
Dims == \E o \in {Obj} : \E r \in {RSeq(6, 0..59)} : Ask([op |-> "dims", o |-> o, order |-> PermFrom(r, 6)])
\* exact distances are brute-forced by implementation and specification alike: small codes only
Small(o) == objs[o].n <= (CASE objs[o].q = 2 -> 8 [] objs[o].q = 3 -> 4 [] objs[o].q = 4 -> 3 [] OTHER -> 2)
Dist == \E o \in {Obj} : IF ~Small(o) THEN Skip ELSE Ask([op |-> "dist", o |-> o, pauli |-> Half, how |-> Pick(<<"get", "exact", "unbounded", "params">>)])
DistB == \E o \in {Obj} : IF ~Small(o) THEN Skip ELSE Ask([op |-> "distb", o |-> o, pauli |-> Half, dec |-> Pick(<<"osd", "ilp", "lookup">>), seed |-> Rnd(1..1000),
                                                          how |-> Pick(<<"bound", "get", "one", "cutoff", "params">>), cutoff |-> Rnd(1..4)])
Conj == \E o \in {Obj} : \E Q \in {Rnd(SUBSET (1..objs[o].n))} :
           /\ Say([op |-> "conj", o |-> o, Q |-> SetToSortSeq(Q, LAMBDA x, y : x < y), how |-> Pick(<<"list", "tuple", "array", "slice">>)])
           /\ objs' = Append(objs, [objs[o] EXCEPT !.css = FALSE])

Gates1 == <<"I", "X", "Z", "H", "S", "S_DAG", "SQRT_X", "SQRT_X_DAG", "C_XYZ", "C_ZYX", "H", "S">>
Gates2 == <<"CX", "CX", "CZ", "CY", "SWAP", "ISWAP">>
RGate(n) == IF n = 1 \/ Rnd(1..3) = 1 THEN [g |-> Pick(Gates1), t |-> <<Rnd(1..n)>>]
            ELSE LET a == TLCEval(Rnd({p \in (1..n) \X (1..n) : p[1] # p[2]})) IN [g |-> Pick(Gates2), t |-> a]
Deform == \E o \in {Obj} : IF objs[o].q # 2 THEN Skip ELSE \E len \in {Rnd(0..6)} :
          \E ops \in {TLCEval([i \in 1..len |-> RGate(objs[o].n)])} :
             /\ Say([op |-> "deform", o |-> o, ops |-> ops, preserve |-> Pick(<<FALSE, FALSE, TRUE>>)])
             /\ objs' = Append(objs, [objs[o] EXCEPT !.css = FALSE])
Dual == \E o \in {Obj} :
           /\ Say([op |-> "dual", o |-> o])
           /\ objs' = Append(objs, [objs[o] EXCEPT !.k = objs[o].g, !.g = objs[o].k])
SForm == \E o \in {Obj} : Ask([op |-> "sform", o |-> o, xz |-> Bool])
Canon == \E o \in {Obj} : Say([op |-> "canon", o |-> o]) /\ objs' = Append(objs, objs[o])
SumN(os) == FoldLeft(LAMBDA a, o : a + objs[o].n, 0, os)
SumK(os) == FoldLeft(LAMBDA a, o : a + objs[o].k, 0, os)
SumG(os) == FoldLeft(LAMBDA a, o : a + objs[o].g, 0, os)
Stack == \E o \in {Obj} : \E more \in {RSeq(Rnd(0..2), {x \in 1..Len(objs) : objs[x].q = objs[o].q})} :
         \E os \in {<<o>> \o more} :
           IF SumN(os) > MaxDerN[objs[o].q] THEN Skip ELSE
              \E via \in {IF \A i \in 1..Len(os) : objs[os[i]].css THEN Pick(<<"css", "css", "qudit">>) ELSE "qudit"} :
              /\ Say([op |-> "stack", os |-> os, inherit |-> Pick(<<TRUE, TRUE, FALSE>>), via |-> via])
              /\ objs' = Append(objs, [q |-> objs[o].q, n |-> SumN(os), k |-> SumK(os), g |-> SumG(os),
                                       css |-> (via = "css"), rank |-> 0])
\* candidate numbers of intermediate qudits: common multiples of inner k and outer n
Concat == \E i \in {Obj} : \E o \in {Rnd({x \in 1..Len(objs) : objs[x].q = objs[i].q})} :
          \E k \in {objs[i].k} : \E no \in {objs[o].n} :
            IF k = 0 THEN Skip ELSE
               \E cand \in {{N \in 1..(k * no) : N % k = 0 /\ N % no = 0 /\ (N \div k) * objs[i].n <= MaxDerN[objs[i].q]}} :
               IF cand = {} THEN Skip ELSE
                  \E N \in {Rnd(cand)} :
                  \E how \in {IF N = k * no THEN Pick(<<"default", "seq", "dict">>) ELSE Pick(<<"seq", "dict">>)} :
                  \E r \in {RSeq(N, 0..59)} : \E w \in {IF how = "default" THEN << >> ELSE PermFrom(r, N)} :
                  \E via \in {IF objs[i].css /\ objs[o].css THEN Pick(<<"css", "css", "qudit">>) ELSE "qudit"} :
                    /\ Say([op |-> "concat", i |-> i, o |-> o, w |-> w, how |-> how,
                            inherit |-> Pick(<<TRUE, TRUE, FALSE>>), via |-> via])
                    /\ objs' = Append(objs, [q |-> objs[i].q, n |-> (N \div k) * objs[i].n,
                                             k |-> (N \div no) * objs[o].k,
                                             g |-> (N \div k) * objs[i].g + (N \div no) * objs[o].g,
                                             css |-> (via = "css"), rank |-> 0])
\* replacing logical operators: symplectic moves on the current ones (valid), possibly spoiled
Move(k, q, css, n) ==
    [t |-> IF css THEN Pick(<<"cx", "scale", "stab">>) ELSE Pick(<<"cx", "h", "s", "scale", "stab", "cz">>),
     i |-> Rnd(1..k), j |-> Rnd(1..k), c |-> Rnd(1..q-1), r |-> Rnd(1..64)]
Spoil(k, q, n) == [t |-> Pick(<<"flip", "xx", "zz", "swap", "drop", "dup">>), i |-> Rnd(1..k), j |-> Rnd(1..k), c |-> Rnd(1..q-1), r |-> Rnd(1..64)]
SetL == \E o \in {Obj} : IF objs[o].k = 0 THEN Skip ELSE \E m \in {Rnd(0..3)} :
        \E mv \in {TLCEval([x \in 1..m |-> Move(objs[o].k, objs[o].q, objs[o].css, objs[o].n)])} :
        \E sp \in {IF Rnd(1..3) = 1 THEN <<Spoil(objs[o].k, objs[o].q, objs[o].n)>> ELSE << >>} :
           Ask([op |-> "setl", o |-> o, moves |-> mv, spoil |-> sp, via |-> Pick(<<"ops", "xz">>)])
Reduce == \E o \in {Obj} : IF ~objs[o].css \/ objs[o].k = 0 \/ objs[o].q \notin {2, 3, 5, 7} THEN Skip ELSE
            Ask([op |-> "reduce", o |-> o, pauli |-> Pick(<<"X", "Z">>), idx |-> Rnd(1..objs[o].k), all |-> Rnd(1..6),
                 dec |-> IF objs[o].q = 2 THEN Pick(<<"osd", "ilp">>) ELSE "ilp"])
Trip == \E o \in {Obj} : Ask([op |-> "trip", o |-> o, via |-> Pick(<<"graph", "strings", "copy">>)])

Do(kind) == CASE kind = "new" -> NewCode [] kind = "newcss" -> NewCSS [] kind = "logical" -> Logical
              [] kind = "stab" -> StabQ [] kind = "gauge" -> GaugeQ [] kind = "dims" -> Dims
              [] kind = "dist" -> Dist [] kind = "distb" -> DistB [] kind = "conj" -> Conj [] kind = "deform" -> Deform
              [] kind = "dual" -> Dual [] kind = "canon" -> Canon [] kind = "stack" -> Stack
              [] kind = "concat" -> Concat [] kind = "setl" -> SetL [] kind = "reduce" -> Reduce
              [] kind = "trip" -> Trip [] kind = "sform" -> SForm

Init == objs = << >> /\ log = << >> /\ phase = 0
First == phase = 0 /\ phase' = 1 /\ \E f \in {Pick(<<1, 2>>)} : IF f = 1 THEN NewCode ELSE NewCSS
\* an action that does not apply to the randomly chosen operands is skipped
Step == /\ phase \in 1..Steps
        /\ phase' = phase + 1
        /\ \E kind \in {Pick(Kinds)} : Do(kind)
Emit == phase = Steps + 1 /\ phase' = Steps + 2 /\ PrintT(ToJson(log)) /\ UNCHANGED <<objs, log>>
Next == First \/ Step \/ Emit
Spec == Init /\ [][Next]_vars

\* sanity of the summaries the generator keeps
Sane == \A i \in 1..Len(objs) : /\ objs[i].n >= 1 /\ objs[i].k >= 0 /\ objs[i].g >= 0
                                /\ objs[i].k + objs[i].g <= objs[i].n
================================================================================
