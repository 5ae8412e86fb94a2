----------------------------- MODULE GroupSession -----------------------------
(***************************************************************************)
(* A user builds finite groups (named, from permutations, matrices, tables *)
(* or other groups) and asks about their members, tables and lifts, in any *)
(* order.  grps records what the model knows: the order of each group.     *)
(***************************************************************************)
EXTENDS Perms, Json
CONSTANTS Kinds, Steps
VARIABLES grps, log, phase
vars == <<grps, log, phase>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
RPerm(n) == TLCEval(FoldLeft(LAMBDA p, i : LET j == RandomElement(i..n) IN
                      TLCEval([p EXCEPT ![i] = p[j], ![j] = p[i]]), PId(n), Idx[n]))
MaxOrder == 24
MaxProd == 36
\* matrix groups: closure of integer (q = 0) or field matrices, up to a size
IDot(q, u, v) == IF q = 0 THEN FoldLeft(LAMBDA a, i : a + u[i] * v[i], 0, Idx[Len(u)]) ELSE Dot(q, u, v)
IMul(q, A, B) == LET T == Transpose(B, Len(A[1])) IN
    TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(T) |-> IDot(q, A[i], T[j])])])
RECURSIVE MGrow(_, _, _, _)
MGrow(q, S, new, gens) ==
    IF new = {} \/ Cardinality(S) > 60 THEN S
    ELSE LET next == TLCEval({IMul(q, x, g) : x \in new, g \in gens} \ S) IN MGrow(q, TLCEval(S \cup next), next, gens)
MClosure(q, gens) == MGrow(q, gens, gens, gens)
RMat(q, d) == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> RandomElement(0..q-1)])])
SignedPerm(d) == LET p == RPerm(d) s == TLCEval([i \in 1..d |-> RandomElement({-1, 1})]) IN
    TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> IF p[i] = j - 1 THEN s[i] ELSE 0])])
Invertible(q, M) == q = 0 \/ Rank(q, M, Len(M)) = Len(M)
---------------------------------------------------------------------------
Add1(ev, ord) == /\ grps' = Append(grps, [ord |-> ord])
                 /\ log' = Append(log, ev)
Named == \E fam \in {Pick(<<"trivial", "cyclic", "cyclic", "abelian", "abelian", "abelian", "dihedral", "alternating", "symmetric", "quaternion">>)} :
    CASE fam = "trivial" -> Add1([op |-> "make", fam |-> fam, lq |-> 0], 1)
      [] fam = "cyclic" -> \E n \in {Rnd(1..9)} : Add1([op |-> "make", fam |-> fam, n |-> n, lq |-> 0], n)
      [] fam = "abelian" -> \E o \in {Pick(<< <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1>>, <<5>>, <<1, 3>>, <<3, 1>>, <<2, 1, 2>>, <<2, 2, 2>>,
                                             <<4, 2>>, <<3, 3>>, <<2, 4>>, <<1, 1>>, <<2, 2, 3>>, <<1, 2, 1, 3>> >>)} :
            Add1([op |-> "make", fam |-> fam, orders |-> o, sum |-> Rnd(BOOLEAN), lq |-> 0], FoldLeft(LAMBDA a, i : a * o[i], 1, Idx[Len(o)]))
      [] fam = "dihedral" -> \E n \in {Rnd(1..6)} : Add1([op |-> "make", fam |-> fam, n |-> n, lq |-> 0], 2 * n)
      [] fam = "alternating" -> \E n \in {Rnd(1..4)} : Add1([op |-> "make", fam |-> fam, n |-> n, lq |-> 0], Cardinality(AltSet(n)))
      [] fam = "symmetric" -> \E n \in {Rnd(1..4)} : Add1([op |-> "make", fam |-> fam, n |-> n, lq |-> 0], Cardinality(SymSet(n)))
      [] fam = "quaternion" -> Add1([op |-> "make", fam |-> fam, lq |-> 3], 8)
FromPerms == \E n \in {Rnd(1..5)} : \E k \in {Rnd(1..3)} : \E gens \in {TLCEval([i \in 1..k |-> RPerm(n)])} :
    \E S \in {Closure({gens[i] : i \in 1..k}, n)} :
       IF Cardinality(S) > MaxOrder \/ Cardinality({gens[i] : i \in 1..k}) # k THEN UNCHANGED <<grps, log>>
       ELSE Add1([op |-> "make", fam |-> "perms", gens |-> gens, n |-> n, how |-> Pick(<<"group", "sympy">>), lq |-> 0], Cardinality(S))
FromMats == \E q \in {Pick(<<0, 0, 2, 2, 3, 4, 5>>)} : \E d \in {IF q \in {4, 5} THEN 1 ELSE Rnd(1..2)} : \E k \in {Rnd(1..3)} :
    \E ms \in {TLCEval([i \in 1..k |-> IF q = 0 THEN SignedPerm(d) ELSE RMat(q, d)])} :
       IF \E i \in 1..k : ~Invertible(q, ms[i]) THEN UNCHANGED <<grps, log>>
       ELSE \E S \in {MClosure(q, {ms[i] : i \in 1..k})} :
            IF Cardinality(S) > MaxOrder THEN UNCHANGED <<grps, log>>
            ELSE Add1([op |-> "make", fam |-> "mats", mats |-> ms, q |-> q, as |-> Pick(<<"array", "list">>), lq |-> q], Cardinality(S))
Linear == \E fam \in {Pick(<<"sl", "psl">>)} : \E q \in {Pick(<<2, 3>>)} :
    Add1([op |-> "make", fam |-> fam, d |-> 2, q |-> q, linear |-> Rnd(BOOLEAN), lq |-> q],
         CASE q = 2 -> 6 [] fam = "sl" -> 24 [] OTHER -> 12)
Product == \E i \in {Rnd(1..Len(grps))} : \E j \in {Rnd(1..Len(grps))} :
    IF grps[i].ord * grps[j].ord > MaxProd THEN UNCHANGED <<grps, log>>
    ELSE Add1([op |-> "make", fam |-> "product", a |-> i, b |-> j, how |-> Pick(<<"mul", "static">>), lq |-> 0], grps[i].ord * grps[j].ord)
Power == \E i \in {Rnd(1..Len(grps))} : \E k \in {Rnd(2..3)} :
    IF grps[i].ord ^ k > MaxProd THEN UNCHANGED <<grps, log>>
    ELSE Add1([op |-> "make", fam |-> "power", a |-> i, k |-> k, how |-> Pick(<<"pow", "static">>), lq |-> 0], grps[i].ord ^ k)
Table == \E i \in {Rnd(1..Len(grps))} : \E sigma \in {IF Rnd(1..3) = 1 THEN PId(grps[i].ord) ELSE RPerm(grps[i].ord)} :
    IF grps[i].ord > MaxOrder THEN UNCHANGED <<grps, log>>
    ELSE Add1([op |-> "make", fam |-> "table", a |-> i, sigma |-> sigma, labels |-> Rnd(BOOLEAN), lq |-> 0], grps[i].ord)
Query(what) == \E i \in {Rnd(1..Len(grps))} :
    /\ log' = Append(log, [op |-> what, o |-> i, b |-> Rnd(1..Len(grps)), x |-> Rnd(0..1000), y |-> Rnd(0..1000)])
    /\ UNCHANGED grps
Subset == \E i \in {Rnd(1..Len(grps))} : \E seed \in {Rnd(0..50)} :
    /\ log' = Append(log, [op |-> "symset", o |-> i, size |-> Rnd(0..grps[i].ord + 1), noid |-> Rnd(BOOLEAN), seed |-> seed])
    /\ UNCHANGED grps
MakeKinds == {"named", "perms", "mats", "linear", "product", "power", "table"}
Do(k) == CASE k = "named" -> Named [] k = "perms" -> FromPerms [] k = "mats" -> FromMats [] k = "linear" -> Linear
           [] k = "product" -> Product [] k = "power" -> Power [] k = "table" -> Table [] k = "symset" -> Subset
           [] OTHER -> Query(k)
Init == grps = << >> /\ log = << >> /\ phase = 0
First == phase = 0 /\ phase' = 1 /\ Named
Step == phase \in 1..Steps /\ phase' = phase + 1 /\ \E k \in {Pick(Kinds)} : Do(k)
Emit == phase = Steps + 1 /\ phase' = Steps + 2 /\ PrintT(ToJson(log)) /\ UNCHANGED <<grps, log>>
Next == First \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
Kinds09 == <<"named", "named", "perms", "mats", "mats", "linear", "product", "power", "table", "table",
             "members", "table?", "table?", "lift", "lift", "regular", "regular", "tensor", "index", "iter_mats", "basic", "basic">>
Kinds22 == <<"named", "named", "perms", "perms", "product", "table", "eq", "eq", "eq", "eq", "basic">>
Kinds19 == <<"named", "perms", "product", "table", "symset", "symset", "symset", "random", "random">>
Sane == \A i \in 1..Len(grps) : grps[i].ord \in 1..MaxProd
===============================================================================
