----------------------------- MODULE TannerSession -----------------------------
(***************************************************************************)
(* A user builds left-right Cayley complexes (from symmetric and other     *)
(* subsets, with either cover), classical Tanner codes on sorted graphs,   *)
(* and quantum Tanner codes, which are compared, saved to files, loaded,   *)
(* and drawn at random.                                                    *)
(***************************************************************************)
EXTENDS Perms, Json
CONSTANTS Kinds, Steps, MaxFaces
VARIABLES nqt, log, phase
vars == <<nqt, log, phase>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Log(ev) == log' = Append(log, ev) /\ UNCHANGED nqt
RPerm(n) == TLCEval(FoldLeft(LAMBDA p, i : LET j == RandomElement(i..n) IN
                      TLCEval([p EXCEPT ![i] = p[j], ![j] = p[i]]), PId(n), Idx[n]))
\* groups, as sequences of permutations, with the description the driver builds them from
Gr(g, S, n) == [group |-> g, mem |-> SetToSeq(S), n |-> n]
Groups == << Gr([fam |-> "cyclic", n |-> 2], CyclicSet(2), 2), Gr([fam |-> "cyclic", n |-> 3], CyclicSet(3), 3), Gr([fam |-> "cyclic", n |-> 4], CyclicSet(4), 4),
             Gr([fam |-> "cyclic", n |-> 5], CyclicSet(5), 5), Gr([fam |-> "cyclic", n |-> 6], CyclicSet(6), 6), Gr([fam |-> "cyclic", n |-> 8], CyclicSet(8), 8),
             Gr([fam |-> "abelian", orders |-> <<2, 2>>, sum |-> FALSE], AbelianSet(<<2, 2>>), 4), Gr([fam |-> "abelian", orders |-> <<2, 3>>, sum |-> FALSE], AbelianSet(<<2, 3>>), 5),
             Gr([fam |-> "abelian", orders |-> <<2, 2, 2>>, sum |-> FALSE], AbelianSet(<<2, 2, 2>>), 6),
             Gr([fam |-> "dihedral", n |-> 3], DihedralSet(3), 3), Gr([fam |-> "dihedral", n |-> 3], DihedralSet(3), 3), Gr([fam |-> "dihedral", n |-> 4], DihedralSet(4), 4),
             Gr([fam |-> "alternating", n |-> 4], AltSet(4), 4) >>
\* a random symmetric subset of about k members
RECURSIVE SymPick(_, _, _)
SymPick(g, S, k) == IF Cardinality(S) >= k THEN S ELSE LET x == g.mem[RandomElement(1..Len(g.mem))] IN SymPick(g, TLCEval(S \cup {x, PInv(x)}), k)
Subset(g, k) == SymPick(g, {}, IF k > Len(g.mem) THEN Len(g.mem) ELSE k)
RECURSIVE Reach(_, _, _, _)
Reach(S, new, A, B) == IF new = {} THEN S ELSE LET next == TLCEval(({PMul(a, x) : a \in A, x \in new} \cup {PMul(x, b) : x \in new, b \in B}) \ S) IN Reach(TLCEval(S \cup next), next, A, B)
Faces(g, A, B, cover) == (Cardinality(Reach({PId(g.n)}, {PId(g.n)}, A, B)) * cover * Cardinality(A) * Cardinality(B)) \div 4
Seqd(S) == SetToSeq(S)
Shuffle(s) == LET p == RPerm(Len(s)) IN TLCEval([i \in 1..Len(s) |-> s[p[i] + 1]])
Qs == <<2, 2, 2, 2, 3, 4, 5>>
RVal(q) == IF Rnd(1..3) = 1 THEN 0 ELSE RandomElement(0..q-1)
RMat(q, m, n) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> RVal(q)])])
---------------------------------------------------------------------------
Cayley == \E gi \in {Rnd(1..Len(Groups))} : \E g \in {Groups[gi]} : \E A \in {Subset(g, Rnd(1..3))} : \E B \in {Subset(g, Rnd(1..3))} :
    \E spoil \in {Rnd(1..6) = 1} : \E bip \in {Rnd(BOOLEAN)} : \E one \in {Rnd(1..5) = 1} :
    \E C \in {IF spoil THEN {g.mem[RandomElement(1..Len(g.mem))] : i \in 1..2} ELSE A} : \E D \in {IF one THEN C ELSE B} :
    IF Faces(g, C, D, IF bip THEN 2 ELSE 4) > 400 THEN Log([op |-> "skip"])
    ELSE Log([op |-> "cayley", group |-> g.group, n |-> g.n, A |-> Shuffle(Seqd(C)), B |-> Shuffle(Seqd(D)), one |-> one, bip |-> bip, as |-> Pick(<<"list", "set", "tuple">>)])
Label == TLCEval(RPerm(6))
Tanner == \E q \in {Pick(Qs)} : \E d \in {Rnd(1..3)} : \E sources \in {Rnd(1..4)} : \E sinks \in {Rnd(d..d + 3)} : \E m \in {Rnd(1..3)} :
    \E nbr \in {TLCEval([i \in 1..sources |-> SubSeq(RPerm(sinks), 1, d)])} :
    \E lab \in {TLCEval([i \in 1..sources |-> SubSeq(RPerm(8), 1, d)])} :
    Log([op |-> "tanner", q |-> q, H |-> RMat(q, m, d), d |-> d, nbr |-> nbr, lab |-> lab, sort |-> Rnd(BOOLEAN), names |-> Pick(<<"int", "str", "tuple">>), order |-> Rnd(0..20)])
Undirected == << [n |-> 3, d |-> 2, edges |-> << <<0, 1>>, <<1, 2>>, <<0, 2>> >>], [n |-> 5, d |-> 2, edges |-> << <<0, 1>>, <<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 0>> >>],
                 [n |-> 4, d |-> 3, edges |-> << <<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>> >>],
                 [n |-> 6, d |-> 3, edges |-> << <<0, 3>>, <<0, 4>>, <<0, 5>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 3>>, <<2, 4>>, <<2, 5>> >>] >>
UTanner == \E q \in {Pick(Qs)} : \E u \in {Pick(Undirected)} : \E sort \in {Rnd(BOOLEAN)} : \E m \in {Rnd(1..2)} :
    \E H \in {IF sort THEN RMat(q, m, u.d) ELSE <<TLCEval([j \in 1..u.d |-> 1])>>} :
    \E lab \in {TLCEval([v \in 1..u.n |-> RPerm(u.d)])} : Log([op |-> "utanner", q |-> q, n |-> u.n, d |-> u.d, edges |-> Shuffle(u.edges), H |-> H, lab |-> lab, sort |-> sort])
Clear(g, A, B) == \A i \in 1..Len(g.mem) : \A a \in A, b \in B : PMul(a, g.mem[i]) # PMul(g.mem[i], b)
QT == \E gi \in {Rnd(1..Len(Groups))} : \E g \in {Groups[gi]} : \E A \in {Subset(g, Rnd(1..3))} : \E B \in {Subset(g, Rnd(1..3))} : \E bip \in {IF Clear(g, A, B) THEN Rnd(1..3) < 3 ELSE Rnd(1..8) = 1} : \E q \in {Pick(Qs)} :
    \E na \in {Cardinality(A)} : \E nb \in {Cardinality(B)} : \E none \in {Rnd(IF na = nb THEN 1..3 ELSE 1..25) = 1} :
    \E ma \in {IF Rnd(1..8) = 1 THEN 0 ELSE Rnd(1..na)} : \E mb \in {IF Rnd(1..8) = 1 THEN 0 ELSE Rnd(1..nb)} :
    IF Faces(g, A, B, IF bip THEN 2 ELSE 4) > MaxFaces THEN Log([op |-> "skip"])
    ELSE /\ log' = Append(log, [op |-> "qt", group |-> g.group, n |-> g.n, A |-> Shuffle(Seqd(A)), B |-> Shuffle(Seqd(B)), bip |-> bip, q |-> q, na |-> na, nb |-> nb,
                   Ha |-> RMat(q, ma, na), Hb |-> RMat(q, mb, nb), none |-> none, style |-> Pick(<<"field", "code", "code", "code">>)])
         /\ nqt' = nqt + 1
Headers == << << >>, <<"a header">>, <<"two", "headers">>, <<"1 0 1">>, <<"subset_a:">>, <<"code_a.matrix:", "# comment">> >>
Save == IF nqt = 0 THEN Log([op |-> "skip"]) ELSE \E i \in {Rnd(1..nqt)} :
    Log([op |-> "qtsave", o |-> i, headers |-> Pick(Headers), multi |-> Rnd(BOOLEAN), dir |-> Pick(<<"", "new", "new/er">>), twice |-> Rnd(BOOLEAN)])
\* compare a code with another, or with a variation of itself
QEq == IF nqt = 0 THEN Log([op |-> "skip"]) ELSE \E i \in {Rnd(1..nqt)} : \E j \in {Rnd(1..nqt)} :
    Log([op |-> "qteq", a |-> i, b |-> j, change |-> Pick(<<"other", "none", "code_a", "code_b", "bip", "subset_a", "subset_b", "css">>)])
QRandom == \E gi \in {Rnd(1..Len(Groups))} : \E g \in {Groups[gi]} : \E bip \in {Rnd(1..4) = 1} : \E q \in {Pick(Qs)} : \E one \in {Rnd(1..3) = 1} : \E none \in {Rnd(1..3) = 1} :
    \E na \in {Rnd(1..2)} : \E nb \in {IF one \/ none THEN na ELSE Rnd(1..2)} :
    IF Len(g.mem) > 8 \/ Len(g.mem) < 2 THEN Log([op |-> "skip"])
    ELSE Log([op |-> "qtrandom", group |-> g.group, n |-> g.n, bip |-> bip, q |-> q, one |-> one, none |-> none, na |-> na, nb |-> nb, Ha |-> RMat(q, 1, na), Hb |-> RMat(q, 1, nb), seed |-> Rnd(0..99)])
Do(k) == CASE k = "cayley" -> Cayley [] k = "tanner" -> Tanner [] k = "utanner" -> UTanner [] k = "qt" -> QT [] k = "save" -> Save [] k = "eq" -> QEq [] k = "random" -> QRandom
Init == nqt = 0 /\ log = << >> /\ phase = 0
First == phase = 0 /\ phase' = 1 /\ QT
Step == phase > 0 /\ phase < Steps /\ phase' = phase + 1 /\ \E k \in {Pick(Kinds)} : Do(k)
Emit == phase = Steps /\ phase' = Steps + 1 /\ PrintT(ToJson(log)) /\ UNCHANGED <<nqt, log>>
Spec == Init /\ [][First \/ Step \/ Emit]_vars
Kinds18 == <<"cayley", "cayley", "cayley", "tanner", "tanner", "utanner", "qt", "qt", "random">>
Kinds15 == <<"qt", "save", "save">>
Kinds19 == <<"random">>
Kinds22 == <<"qt", "eq", "eq", "eq", "eq">>
Sane == nqt \in 0..Steps
===============================================================================
