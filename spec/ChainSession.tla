----------------------------- MODULE ChainSession -----------------------------
(***************************************************************************)
(* A user builds chain complexes over fields and group algebras (valid and *)
(* invalid ones), transposes them and takes tensor products.               *)
(***************************************************************************)
EXTENDS GroupRing, Json
CONSTANTS Steps
VARIABLES chains, log, phase
vars == <<chains, log, phase>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Log(ev) == log' = Append(log, ev)
\* base rings; a field is the algebra of the trivial group
FieldRing(q) == [kind |-> "field", q |-> q, group |-> [fam |-> "trivial"], abelian |-> TRUE, mem |-> << <<0>> >>]
CyclicRing(n, q) == [kind |-> "ring", q |-> q, group |-> [fam |-> "cyclic", n |-> n], abelian |-> TRUE, mem |-> [k \in 1..n |-> Rotation(n, k - 1)]]
KleinRing(q) == [kind |-> "ring", q |-> q, group |-> [fam |-> "abelian", orders |-> <<2, 2>>, sum |-> FALSE], abelian |-> TRUE,
                 mem |-> << <<0, 1, 2, 3>>, <<0, 1, 3, 2>>, <<1, 0, 2, 3>>, <<1, 0, 3, 2>> >>]
DihedralRing(q) == [kind |-> "ring", q |-> q, group |-> [fam |-> "dihedral", n |-> 3], abelian |-> FALSE, mem |-> SetToSeq(DihedralSet(3))]
Bases == <<FieldRing(2), FieldRing(2), FieldRing(3), FieldRing(4), FieldRing(5), CyclicRing(2, 2), CyclicRing(3, 2), CyclicRing(2, 3), CyclicRing(3, 4),
           KleinRing(2), KleinRing(3), DihedralRing(2), DihedralRing(3)>>
BaseRing == TLCEval([i \in 1..Len(Bases) |-> RingOf(Bases[i].q, Bases[i].mem)])
RElem(R) == IF Rnd(1..3) = 1 THEN RZero(R) ELSE IF Rnd(1..2) = 1 THEN [RZero(R) EXCEPT ![Rnd(1..R.n)] = RandomElement(1..R.q-1)]
            ELSE TLCEval([i \in 1..R.n |-> RandomElement(0..R.q-1)])
RMat(R, m, n) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> RElem(R)])])
\* elements whose coefficients add up to zero, and multiples of the sum of all members: these annihilate whatever the order of members
AugZero(R) == LET x == RElem(R) s == FoldLeft(LAMBDA a, i : Add(R.q, a, x[i]), 0, Idx[R.n]) IN [x EXCEPT ![1] = Sub(R.q, @, s)]
AllOnes(R) == LET c == RandomElement(0..R.q-1) IN TLCEval([i \in 1..R.n |-> c])
\* random columns annihilated by A
Unflat(R, v, n) == TLCEval([j \in 1..n |-> SubSeq(v, (j - 1) * R.n + 1, j * R.n)])
KernelCols(R, A, n, k) ==
    LET N == NullSpace(R.q, RegularBlock(R, A), n * R.n)
        col(i) == Unflat(R, VecMat(R.q, TLCEval([r \in 1..Len(N) |-> RandomElement(0..R.q-1)]), N, n * R.n), n)
        cols == TLCEval([i \in 1..k |-> col(i)])
    IN  TLCEval([j \in 1..n |-> TLCEval([i \in 1..k |-> cols[i][j]])])
Op(m, n, A) == [m |-> m, n |-> n, A |-> A]
RECURSIVE Extend(_, _, _)
Extend(R, ops, more) ==
    IF more = 0 THEN ops
    ELSE LET last == ops[Len(ops)] IN
         IF last.m = 0 \/ last.n = 0 THEN Extend(R, Append(ops, Op(last.n, 2, RMat(R, last.n, 2))), more - 1)
         ELSE LET k == Rnd(1..3) K == KernelCols(R, last.A, last.n, k) IN Extend(R, Append(ops, Op(last.n, k, K)), more - 1)
Dims(ops) == <<ops[1].m>> \o TLCEval([i \in 1..Len(ops) |-> ops[i].n])
Spoil(R, ops) ==
    LET k == Rnd(1..Len(ops)) o == ops[k] IN
    IF Rnd(1..3) = 1 THEN [ops EXCEPT ![k] = Op(o.m + 1, o.n, Append(o.A, TLCEval([j \in 1..o.n |-> RElem(R)])))]
    ELSE IF o.m = 0 \/ o.n = 0 THEN ops
    ELSE [ops EXCEPT ![k].A[Rnd(1..o.m)][Rnd(1..o.n)] = RElem(R)]
NewChain(ev, c) == chains' = Append(chains, c) /\ Log(ev)
MaxDim(b) == IF Bases[b].kind = "field" THEN 3 ELSE 2
Make == \E b \in {Rnd(1..Len(Bases))} : \E R \in {BaseRing[b]} : \E m \in {IF Rnd(1..12) = 1 /\ Bases[b].kind = "field" THEN 0 ELSE Rnd(1..MaxDim(b))} : \E n \in {Rnd(1..MaxDim(b))} : \E links \in {Pick(<<1, 1, 2, 2, 3>>)} :
    \E ops \in {IF Bases[b].abelian THEN Extend(R, <<Op(m, n, RMat(R, m, n))>>, links - 1)
                ELSE LET A == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> AugZero(R)])]) IN
                     IF links = 1 THEN <<Op(m, n, A)>> ELSE <<Op(m, n, A), Op(n, 2, TLCEval([i \in 1..n |-> TLCEval([j \in 1..2 |-> AllOnes(R)])]))>>} :
    \E final \in {IF Rnd(1..4) = 1 THEN Spoil(R, ops) ELSE ops} :
    NewChain([op |-> "chain", base |-> b, kind |-> Bases[b].kind, q |-> Bases[b].q, group |-> Bases[b].group, ops |-> final,
              as |-> Pick(<<"field", "plain", "mixed">>)],
             [base |-> b, dims |-> Dims(final)])
\* operators over different fields, groups, or of different types must be rejected
Clash == \E f \in {Pick(<<"fields", "ring-field", "groups", "flag", "ringfields">>)} : Log([op |-> "clash", f |-> f]) /\ UNCHANGED chains
Reverse2(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Trans == IF chains = << >> THEN UNCHANGED <<chains, log>> ELSE \E i \in {Rnd(1..Len(chains))} :
    NewChain([op |-> "T", a |-> i], [base |-> chains[i].base, dims |-> Reverse2(chains[i].dims)])
Conv(x, y) == TLCEval([k \in 1..Len(x) + Len(y) - 1 |-> FoldLeft(LAMBDA acc, i : IF k + 1 - i \in 1..Len(y) THEN acc + x[i] * y[k + 1 - i] ELSE acc, 0, Idx[Len(x)])])
Fits(i, j) == LET d == Conv(chains[i].dims, chains[j].dims) IN chains[i].base = chains[j].base /\ Bases[chains[i].base].abelian /\ Len(d) <= 6
              /\ \A k \in 1..Len(d) : d[k] <= 14
Tensor == IF chains = << >> THEN UNCHANGED <<chains, log>> ELSE \E i \in {Rnd(1..Len(chains))} :
    LET J == {j \in 1..Len(chains) : Fits(i, j)} IN
    IF J = {} THEN UNCHANGED <<chains, log>> ELSE \E j \in {Rnd(J)} :
    NewChain([op |-> "tensor", a |-> i, b |-> j, how |-> Pick(<<"chains", "chains", "raw", "raw-left">>)],
             [base |-> chains[i].base, dims |-> Conv(chains[i].dims, chains[j].dims)])
TensorClash == IF Len(chains) < 2 THEN UNCHANGED <<chains, log>> ELSE \E i \in {Rnd(1..Len(chains))} : \E j \in {Rnd(1..Len(chains))} :
    IF chains[i].base = chains[j].base THEN UNCHANGED <<chains, log>> ELSE Log([op |-> "tclash", a |-> i, b |-> j]) /\ UNCHANGED chains
Do(k) == CASE k = "make" -> Make [] k = "clash" -> Clash [] k = "T" -> Trans [] k = "tensor" -> Tensor [] k = "tclash" -> TensorClash
Kinds == <<"make", "make", "make", "make", "T", "T", "tensor", "tensor", "tensor", "tensor", "clash", "tclash">>
Init == chains = << >> /\ log = << >> /\ phase = 0
First == phase = 0 /\ phase' = 1 /\ Make
Step == phase \in 1..Steps /\ phase' = phase + 1 /\ \E k \in {Pick(Kinds)} : Do(k)
Emit == phase = Steps + 1 /\ phase' = Steps + 2 /\ PrintT(ToJson(log)) /\ UNCHANGED <<chains, log>>
Next == First \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
Sane == \A i \in 1..Len(chains) : Len(chains[i].dims) >= 2
===============================================================================
