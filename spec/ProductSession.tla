---------------------------- MODULE ProductSession ----------------------------
(***************************************************************************)
(* A user builds quantum codes from seeds: two-block, quasi-cyclic and     *)
(* bivariate bicycle codes, and (subsystem) hypergraph and lifted products.*)
(***************************************************************************)
EXTENDS GroupRing, Json
CONSTANTS Steps
VARIABLES log, phase
vars == <<log, phase>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Log(ev) == log' = Append(log, ev)
---------------------------------------------------------------------------
\* random matrices over a field: sparse, dense, with repeated or zero rows
RRow(q, n) == IF Rnd(1..8) = 1 THEN ZeroVec(n) ELSE IF Rnd(1..2) = 1 THEN TLCEval([j \in 1..n |-> RandomElement(0..q-1)])
              ELSE TLCEval([j \in 1..n |-> IF Rnd(1..2) = 1 THEN 0 ELSE RandomElement(1..q-1)])
RMatF(q, m, n) == TLCEval([i \in 1..m |-> RRow(q, n)])
Repet(q, n) == TLCEval([i \in 1..n-1 |-> TLCEval([j \in 1..n |-> IF j = i THEN 1 ELSE IF j = i + 1 THEN Neg(q, 1) ELSE 0])])
Ring(q, n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF j = i THEN 1 ELSE IF j = (i % n) + 1 THEN Neg(q, 1) ELSE 0])])
SeedMat(q) == IF Rnd(1..5) = 1 THEN Repet(q, Rnd(2..4)) ELSE IF Rnd(1..5) = 1 THEN Ring(q, Rnd(2..3))
              ELSE LET A == RMatF(q, Rnd(1..3), Rnd(1..4)) IN IF Rnd(1..4) = 1 THEN Append(A, A[1]) ELSE A
Qs == <<2, 2, 2, 3, 3, 4, 5>>
\* two commuting square matrices: polynomials in one matrix
PolyIn(q, M, n) == LET c == TLCEval([k \in 1..3 |-> RandomElement(0..q-1)])
                       M2 == MatMul(q, M, M, n)
                   IN TLCEval([i \in 1..n |-> VAdd(q, VScale(q, c[1], UnitVec(n, i)), VAxpy(q, c[2], M[i], VScale(q, c[3], M2[i])))])
TB == \E q \in {Pick(Qs)} : \E n \in {Rnd(1..4)} : \E M \in {RMatF(q, n, n)} : \E A \in {PolyIn(q, M, n)} :
      \E B \in {IF Rnd(1..4) = 1 THEN RMatF(q, n, n) ELSE PolyIn(q, M, n)} : Log([op |-> "tb", q |-> q, n |-> n, A |-> A, B |-> B, as |-> Pick(<<"array", "code", "field">>)])
---------------------------------------------------------------------------
\* polynomials: sequences of <<coefficient, exponents>>
Names == << <<"x">>, <<"x", "y">>, <<"x", "y", "z">> >>
RPoly(q, ns) == LET e == TLCEval([t \in 1..Rnd(1..3) |-> TLCEval([s \in 1..ns |-> Pick(<<0, 0, 1, 1, 2, 3, -1>>)])])
                    ix == SelectSeq(Idx[Len(e)], LAMBDA i : \A j \in 1..i-1 : e[j] # e[i])
                IN TLCEval([t \in 1..Len(ix) |-> <<IF Prime(q) /\ Rnd(1..2) = 1 THEN RandomElement(1..q-1) ELSE 1, e[ix[t]]>>])
\* some permutations of the symbols, for explicit assignments
QC == \E q \in {Pick(<<2, 2, 2, 3, 4, 5>>)} : \E ns \in {Pick(<<1, 1, 2, 2, 3>>)} : \E extra \in {Pick(<<0, 0, 0, 1, 2>>)} :
      \E orders \in {TLCEval([s \in 1..ns + extra |-> IF ns + extra > 3 THEN Rnd(1..2) ELSE IF ns + extra > 2 THEN Rnd(1..3) ELSE Rnd(1..4)])} :
      \E order \in {IF ns > 1 /\ Rnd(1..2) = 1 THEN TLCEval([s \in 1..ns |-> ns + 1 - s]) ELSE Idx[ns]} :
      Log([op |-> "qc", cls |-> "QC", q |-> q, orders |-> orders, ns |-> ns, order |-> order, how |-> IF extra = 0 THEN Pick(<<"list", "dict">>) ELSE "list",
           pa |-> RPoly(q, ns), pb |-> RPoly(q, ns)])
BB == \E q \in {Pick(<<2, 2, 2, 3>>)} : \E orders \in {<<Rnd(1..4), Rnd(1..4)>>} : \E order \in {IF Rnd(1..2) = 1 THEN <<1, 2>> ELSE <<2, 1>>} :
      Log([op |-> "qc", cls |-> "BB", q |-> q, orders |-> orders, ns |-> 2, order |-> order, how |-> Pick(<<"list", "dict">>), pa |-> RPoly(q, 2), pb |-> RPoly(q, 2)])
BBClash == \E no \in {Rnd(1..3)} : \E ns \in {Rnd(1..3)} : IF no = 2 /\ ns = 2 THEN UNCHANGED log ELSE Log([op |-> "bbclash", no |-> no, ns |-> ns])
---------------------------------------------------------------------------
Prod(op) == \E q \in {Pick(Qs)} : \E A \in {SeedMat(q)} : \E B \in {IF Rnd(1..4) = 1 THEN A ELSE SeedMat(q)} :
      Log([op |-> op, q |-> q, A |-> A, B |-> B, m1 |-> Len(A), n1 |-> Len(A[1]), m2 |-> Len(B), n2 |-> Len(B[1]), one |-> A = B /\ Rnd(1..2) = 1,
           set |-> Rnd(1..4) # 1, as |-> Pick(<<"array", "code", "field">>)])
SHYPS == \E a \in {2} : \E b \in {Pick(<<0, 2, 2, 3>>)} : Log([op |-> "shyps", a |-> a, b |-> b, set |-> Rnd(1..3) # 1])
---------------------------------------------------------------------------
CyclicRing(n, q) == [q |-> q, group |-> [fam |-> "cyclic", n |-> n], abelian |-> TRUE, ord |-> n]
KleinRing(q, s) == [q |-> q, group |-> [fam |-> "abelian", orders |-> <<2, 2>>, sum |-> s], abelian |-> TRUE, ord |-> 4]
DihedralRing(q) == [q |-> q, group |-> [fam |-> "dihedral", n |-> 3], abelian |-> FALSE, ord |-> 6]
TrivialRing(q) == [q |-> q, group |-> [fam |-> "trivial"], abelian |-> TRUE, ord |-> 1]
Bases == <<TrivialRing(2), TrivialRing(3), CyclicRing(2, 2), CyclicRing(3, 2), CyclicRing(4, 2), CyclicRing(2, 3), CyclicRing(3, 3), CyclicRing(3, 4), KleinRing(2, FALSE),
           KleinRing(2, TRUE), KleinRing(3, FALSE), DihedralRing(2), DihedralRing(3)>>
RElem(q, n) == IF Rnd(1..3) = 1 THEN ZeroVec(n) ELSE IF Rnd(1..2) = 1 THEN [ZeroVec(n) EXCEPT ![Rnd(1..n)] = RandomElement(1..q-1)]
               ELSE TLCEval([i \in 1..n |-> RandomElement(0..q-1)])
RMat(q, k, m, n) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> RElem(q, k)])])
Lifted(op) == \E b \in {Pick(Bases)} : \E m1 \in {Rnd(1..2)} : \E n1 \in {Rnd(1..(IF b.ord > 3 THEN 2 ELSE 3))} : \E m2 \in {Rnd(1..2)} : \E n2 \in {Rnd(1..2)} :
      \E A \in {RMat(b.q, b.ord, m1, n1)} : \E same \in {Rnd(1..4) = 1} : \E B \in {IF same THEN A ELSE RMat(b.q, b.ord, m2, n2)} :
      Log([op |-> op, q |-> b.q, group |-> b.group, abelian |-> b.abelian, A |-> A, B |-> B, m1 |-> m1, n1 |-> n1, m2 |-> Len(B), n2 |-> Len(B[1]), one |-> same])
Do(k) == CASE k = "tb" -> TB [] k = "qc" -> QC [] k = "bb" -> BB [] k = "bbclash" -> BBClash [] k \in {"hgp", "shp"} -> Prod(k) [] k = "shyps" -> SHYPS [] k \in {"lp", "slp"} -> Lifted(k)
Kinds == <<"tb", "tb", "qc", "qc", "qc", "bb", "bb", "bbclash", "hgp", "hgp", "hgp", "shp", "shp", "shp", "shyps", "lp", "lp", "lp", "slp", "slp">>
Init == log = << >> /\ phase = 0
Step == phase \in 0..Steps-1 /\ phase' = phase + 1 /\ \E k \in {Pick(Kinds)} : Do(k)
Emit == phase = Steps /\ phase' = Steps + 1 /\ PrintT(ToJson(log)) /\ UNCHANGED log
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Sane == Len(log) <= Steps
===============================================================================
