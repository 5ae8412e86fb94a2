--------------------------- MODULE ClassicalSession ---------------------------
(***************************************************************************)
(* Sessions of a user working with a family of classical linear codes.     *)
(* State: the codes built so far, each known by its field, length and the  *)
(* canonical basis of its words.  Actions build codes, derive codes        *)
(* (dual, tensor, stack, puncture, shorten, canonical form), and ask       *)
(* questions.  The log is replayed into the implementation.                *)
(***************************************************************************)
EXTENDS ClassicalAlgebra, Json
CONSTANTS Qs, MaxN, MaxDerN, Steps, Kinds
VARIABLES objs, log, phase
vars == <<objs, log, phase>>
Rnd(S) == RandomElement(S)
RSeq(n, S) == TLCEval([i \in 1..n |-> RandomElement(S)])
RVec(q, n) == TLCEval([i \in 1..n |-> RandomElement(0..q-1)])
RMat(q, m, n) == TLCEval([i \in 1..m |-> RVec(q, n)])
Sparse(q, m, n) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> IF RandomElement(1..3) = 1 THEN RandomElement(1..q-1) ELSE 0])])
Pick(s) == s[RandomElement(1..Len(s))]
Bool == Rnd(BOOLEAN)
Swap2(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
PermFrom(r, N) == FoldLeft(LAMBDA p, i : Swap2(p, i, i + (r[i] % (N - i + 1))), Idx[N], Idx[N])
Skip == UNCHANGED <<objs, log>>
Obj == Rnd(1..Len(objs))
Say(e) == log' = Append(log, e)
Ask(e) == Say(e) /\ UNCHANGED objs
Make(e, q, n, W) == Say(e) /\ objs' = Append(objs, [q |-> q, n |-> n, W |-> W])
\* a matrix with repeated, combined and zero rows and columns now and then
RandM(q, m, n) ==
    LET M == IF Rnd(1..2) = 1 THEN RMat(q, m, n) ELSE Sparse(q, m, n)
        extra == RMat(q, Pick(<<0, 0, 0, 1, 2>>), m)
        N == M \o TLCEval([i \in 1..Len(extra) |-> VecMat(q, extra[i], M, n)])
        z == Pick(<<0, 0, 0, 0, 1>>) * Rnd(1..n)
    IN  TLCEval([i \in 1..Len(N) |-> TLCEval([j \in 1..n |-> IF j = z THEN 0 ELSE N[i][j]])])
New == \E q \in {Pick(Qs)} : \E n \in {Rnd(1..MaxN[q])} : \E m \in {Rnd(1..n)} : \E H \in {RandM(q, m, n)} :
         Make([op |-> "new", q |-> q, n |-> n, m |-> H, how |-> Pick(<<"list", "array", "field", "copy", "abstract">>)],
              q, n, FromChecks(q, H, n))
Gen == \E q \in {Pick(Qs)} : \E n \in {Rnd(1..MaxN[q])} : \E m \in {Rnd(1..n)} : \E G \in {RandM(q, m, n)} :
         Make([op |-> "gen", q |-> q, n |-> n, m |-> G, how |-> Pick(<<"list", "field">>)], q, n, FromGenerator(q, G, n))
Dual == \E o \in {Obj} : \E c \in {objs[o]} : Make([op |-> "dual", o |-> o, how |-> Pick(<<"dual", "invert">>)], c.q, c.n, DualW(c.q, c.W, c.n))
Canon == \E o \in {Obj} : \E c \in {objs[o]} : Make([op |-> "canon", o |-> o], c.q, c.n, c.W)
Same(o) == {x \in 1..Len(objs) : objs[x].q = objs[o].q}
Tensor == \E a \in {Obj} : \E b \in {Rnd(Same(a))} : \E A \in {objs[a]} : \E B \in {objs[b]} :
            IF A.n * B.n > MaxDerN[A.q] THEN Skip
            ELSE Make([op |-> "tensor", a |-> a, b |-> b], A.q, A.n * B.n, TensorW(A.q, A.W, A.n, B.W, B.n))
Stack == \E o \in {Obj} : \E more \in {RSeq(Rnd(0..2), Same(o))} : \E os \in {<<o>> \o more} :
         \E ns \in {TLCEval([i \in 1..Len(os) |-> objs[os[i]].n])} :
            IF SumSeq(ns) > MaxDerN[objs[o].q] THEN Skip
            ELSE Make([op |-> "stack", os |-> os], objs[o].q, SumSeq(ns), StackW(objs[o].q, TLCEval([i \in 1..Len(os) |-> objs[os[i]].W]), ns))
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Shuffled(S) == LET s == Sorted(S) p == PermFrom(RSeq(Len(s), 0..59), Len(s)) IN TLCEval([i \in 1..Len(s) |-> s[p[i]]])
Cut == \E o \in {Obj} : \E c \in {objs[o]} : IF c.n = 1 THEN Skip ELSE
       \E bits \in {Rnd({b \in SUBSET (1..c.n) : Cardinality(b) \in 0..3 /\ Cardinality(b) < c.n})} :
       \E how \in {Pick(<<"puncture", "shorten", "shorten">>)} :
          Make([op |-> how, o |-> o, bits |-> Shuffled(bits)], c.q, c.n - Cardinality(bits),
               IF how = "puncture" THEN PunctureW(c.q, c.W, c.n, bits) ELSE ShortenW(c.q, c.W, c.n, bits))
Few(o) == objs[o].q ^ Len(objs[o].W) <= 130
WordsQ == \E o \in {Obj} : IF ~Few(o) THEN Skip ELSE Ask([op |-> "words", o |-> o, skip0 |-> Bool])
\* vectors, some of which are words, some a word with one entry changed
NearWord(c) == LET w == VecMat(c.q, RVec(c.q, Len(c.W)), c.W, c.n)
               IN  IF Rnd(1..2) = 1 THEN w ELSE VAxpy(c.q, Rnd(1..c.q-1), UnitVec(c.n, Rnd(1..c.n)), w)
ContainsQ == \E o \in {Obj} : \E m \in {Rnd(1..3)} :
              Ask([op |-> "contains", o |-> o, single |-> Bool, v |-> TLCEval([i \in 1..m |-> NearWord(objs[o])])])
GenQ == \E o \in {Obj} : Ask([op |-> "generator", o |-> o])
RndWord == \E o \in {Obj} : Ask([op |-> "rndword", o |-> o, seed |-> Rnd(0..1000)])
Dims == \E o \in {Obj} : \E r \in {RSeq(5, 0..59)} : Ask([op |-> "cdims", o |-> o, order |-> PermFrom(r, 5)])
Dist == \E o \in {Obj} : IF ~Few(o) THEN Skip ELSE Ask([op |-> "cdist", o |-> o, how |-> Pick(<<"get", "exact", "unbounded">>)])
DistV == \E o \in {Obj} : IF ~Few(o) THEN Skip ELSE
            Ask([op |-> "cdistv", o |-> o, how |-> Pick(<<"get", "exact">>), v |-> RVec(objs[o].q, objs[o].n)])
\* (a full-weight lookup table has q^n entries)
Tabled(o, d) == IF d = "lookup" /\ objs[o].q ^ objs[o].n > 1000 THEN "default" ELSE d
DistB == \E o \in {Obj} : IF ~Few(o) THEN Skip ELSE
            Ask([op |-> "cdistb", o |-> o, dec |-> Tabled(o, IF objs[o].q = 2 THEN Pick(<<"osd", "ilp", "guf", "lookup", "lsd">>) ELSE IF Prime(objs[o].q) THEN Pick(<<"ilp", "guf", "lookup", "default">>) ELSE Pick(<<"guf", "lookup", "default">>)),
                 trials |-> Rnd(1..2), how |-> Pick(<<"get", "bound", "one", "cutoff">>), cutoff |-> Rnd(1..4), vec |-> Pick(<< << >>, RVec(objs[o].q, objs[o].n)>>), seed |-> Rnd(0..1000)])
\* a generator matrix for the code: rows mixed, possibly redundant, possibly wrong
SetGen == \E o \in {Obj} : \E c \in {objs[o]} : \E k \in {Len(c.W)} : IF k = 0 THEN Skip ELSE
          \E A \in {RMat(c.q, k + Pick(<<0, 0, 1>>), k)} : \E sp \in {Pick(<<0, 0, 1>>)} :
          \E G \in {MatMul(c.q, A, c.W, c.n)} :
             Ask([op |-> "setgen", o |-> o, m |-> IF sp = 0 THEN G ELSE [G EXCEPT ![1] = VAxpy(c.q, 1, UnitVec(c.n, Rnd(1..c.n)), G[1])]])
\* the permutations of bits that preserve the words, with the help of an algebra system (for prime fields)
AutoQ == \E o \in {Obj} : IF objs[o].n > 5 \/ ~Prime(objs[o].q) \/ objs[o].q ^ objs[o].n > 1000 THEN Skip ELSE Ask([op |-> "auto", o |-> o])
EqQ == \E a \in {Obj} : \E b \in {Obj} : Ask([op |-> "ceq", a |-> a, b |-> b])
Trip == \E o \in {Obj} : Ask([op |-> "ctrip", o |-> o, via |-> Pick(<<"graph", "matrixgraph", "copy">>)])
RandomC == \E q \in {Pick(Qs)} : \E n \in {Rnd(2..MaxN[q])} :
             Ask([op |-> "random", q |-> q, n |-> n, checks |-> Rnd(1..n), seed |-> Rnd(0..1000)])
Do(kind) == CASE kind = "new" -> New [] kind = "gen" -> Gen [] kind = "dual" -> Dual [] kind = "canon" -> Canon
              [] kind = "tensor" -> Tensor [] kind = "stack" -> Stack [] kind = "cut" -> Cut
              [] kind = "words" -> WordsQ [] kind = "contains" -> ContainsQ [] kind = "generator" -> GenQ
              [] kind = "rndword" -> RndWord [] kind = "dims" -> Dims [] kind = "dist" -> Dist
              [] kind = "distv" -> DistV [] kind = "distb" -> DistB [] kind = "setgen" -> SetGen
              [] kind = "eq" -> EqQ [] kind = "auto" -> AutoQ [] kind = "trip" -> Trip [] kind = "random" -> RandomC
Init == objs = << >> /\ log = << >> /\ phase = 0
First == phase = 0 /\ phase' = 1 /\ \E f \in {Pick(<<1, 1, 2>>)} : IF f = 1 THEN New ELSE Gen
Step == phase \in 1..Steps /\ phase' = phase + 1 /\ \E kind \in {Pick(Kinds)} : Do(kind)
Emit == phase = Steps + 1 /\ phase' = Steps + 2 /\ PrintT(ToJson(log)) /\ UNCHANGED <<objs, log>>
Next == First \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
Sane == \A i \in 1..Len(objs) : objs[i].n >= 1 /\ Len(objs[i].W) <= objs[i].n
Kinds04 == <<"new", "gen", "gen", "dual", "dual", "tensor", "stack", "cut", "cut", "cut", "words", "words", "contains", "contains",
             "generator", "rndword", "dims", "setgen", "canon", "auto", "auto">>
Kinds07 == <<"new", "gen", "gen", "dual", "tensor", "stack", "cut", "cut", "words", "contains", "generator", "rndword", "dims",
             "dims", "setgen", "canon", "dist", "dist", "dist", "distb">>
Kinds02 == <<"new", "gen", "dual", "canon", "cut", "tensor", "stack", "dims", "dims", "dims", "words", "generator", "setgen">>
Kinds03 == <<"new", "gen", "dual", "cut", "stack", "dist", "dist", "distv", "distv", "distb", "distb", "distb", "canon", "setgen">>
Kinds15 == <<"new", "gen", "dual", "cut", "trip", "trip", "trip", "canon">>
Kinds19 == <<"new", "gen", "dual", "cut", "rndword", "rndword", "random", "random", "random">>
Kinds22 == <<"new", "gen", "dual", "dual", "canon", "canon", "cut", "stack", "eq", "eq", "eq", "eq", "setgen">>
QsDef == <<2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 7, 8, 9, 11, 16>>
Fs == {2, 3, 4, 5, 7, 8, 9, 11, 16}
NDef == [q \in Fs |-> CASE q = 2 -> 7 [] q = 3 -> 5 [] q \in {4, 5} -> 4 [] q \in {11, 16} -> 2 [] OTHER -> 3]
DerDef == [q \in Fs |-> CASE q = 2 -> 20 [] q = 3 -> 12 [] q \in {11, 16} -> 5 [] OTHER -> 9]
===============================================================================
