----------------------------- MODULE RingSession -----------------------------
(***************************************************************************)
(* A user works with elements of, and matrices over, group algebras.       *)
(***************************************************************************)
EXTENDS Perms, Json
CONSTANTS Kinds, Steps
VARIABLES rings, elems, arrs, log, phase
vars == <<rings, elems, arrs, log, phase>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Groups == <<[fam |-> "trivial", ord |-> 1, lq |-> 0],
            [fam |-> "cyclic", n |-> 1, ord |-> 1, lq |-> 0], [fam |-> "cyclic", n |-> 2, ord |-> 2, lq |-> 0],
            [fam |-> "cyclic", n |-> 3, ord |-> 3, lq |-> 0], [fam |-> "cyclic", n |-> 4, ord |-> 4, lq |-> 0],
            [fam |-> "cyclic", n |-> 5, ord |-> 5, lq |-> 0],
            [fam |-> "abelian", orders |-> <<2, 2>>, sum |-> FALSE, ord |-> 4, lq |-> 0],
            [fam |-> "abelian", orders |-> <<2, 2>>, sum |-> TRUE, ord |-> 4, lq |-> 0],
            [fam |-> "abelian", orders |-> <<2, 3>>, sum |-> TRUE, ord |-> 6, lq |-> 0],
            [fam |-> "dihedral", n |-> 3, ord |-> 6, lq |-> 0], [fam |-> "dihedral", n |-> 3, ord |-> 6, lq |-> 0],
            [fam |-> "dihedral", n |-> 4, ord |-> 8, lq |-> 0], [fam |-> "symmetric", n |-> 3, ord |-> 6, lq |-> 0],
            [fam |-> "quaternion", ord |-> 8, lq |-> 3],
            [fam |-> "perms", gens |-> << <<1, 2, 0>>, <<0, 2, 1>> >>, n |-> 3, how |-> "group", ord |-> 6, lq |-> 0],
            [fam |-> "sl", d |-> 2, q |-> 2, linear |-> TRUE, ord |-> 6, lq |-> 2],
            [fam |-> "mats", mats |-> << <<<<0, 1>>, <<1, 0>>>>, <<<<1, 0>>, <<0, -1>>>> >>, q |-> 0, as |-> "list", ord |-> 8, lq |-> 0]>>
\* coefficient sequences
RElem(q, n) == CASE Rnd(1..5) = 1 -> ZeroVec(n)
                 [] Rnd(1..4) = 1 -> [ZeroVec(n) EXCEPT ![Rnd(1..n)] = RandomElement(1..q-1)]
                 [] Rnd(1..3) = 1 -> [ZeroVec(n) EXCEPT ![1] = RandomElement(0..q-1), ![Rnd(1..n)] = RandomElement(1..q-1)]
                 [] OTHER -> TLCEval([i \in 1..n |-> RandomElement(0..q-1)])
Log(ev) == log' = Append(log, ev)
MakeRing == \E g \in {Pick(Groups)} : \E q \in {IF g.lq # 0 THEN Pick(<<g.lq, 2, 3>>) ELSE Pick(<<2, 2, 2, 3, 4, 5>>)} :
    /\ rings' = Append(rings, [ord |-> g.ord, q |-> q, lq |-> g.lq, triv |-> g.fam = "trivial"])
    /\ Log([op |-> "ring", group |-> g, q |-> q, plain |-> Rnd(BOOLEAN)])
    /\ UNCHANGED <<elems, arrs>>
NewElem(ev, r) == elems' = Append(elems, r) /\ Log(ev) /\ UNCHANGED <<rings, arrs>>
Elem == \E r \in {Rnd(1..Len(rings))} : \E R \in {rings[r]} :
    \E how \in {Pick(<<"terms", "terms", "vector", "zero", "one">>)} : \E k \in {Rnd(0..4)} :
       NewElem([op |-> "elem", ring |-> r, how |-> how,
                ts |-> IF how = "terms" THEN TLCEval([i \in 1..k |-> <<RandomElement(0..R.q-1), RandomElement(1..R.ord)>>]) ELSE << >>,
                v |-> IF how = "vector" THEN RElem(R.q, R.ord) ELSE << >>], r)
SameRing(i) == {j \in 1..Len(elems) : elems[j] = elems[i]}
Skip == UNCHANGED <<rings, elems, arrs, log>>
Bin == IF elems = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(elems))} : \E j \in {Rnd(SameRing(i))} :
       \E f \in {Pick(<<"add", "sub", "mul", "mul">>)} : NewElem([op |-> "bin", f |-> f, a |-> i, b |-> j], elems[i])
WithInt == IF elems = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(elems))} : \E c \in {Rnd(-4..5)} :
       \E f \in {Pick(<<"add", "sub", "mul", "rmul", "radd">>)} : NewElem([op |-> "int", f |-> f, a |-> i, c |-> c], elems[i])
WithMember == IF elems = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(elems))} : \E g \in {Rnd(1..rings[elems[i]].ord)} :
       \E f \in {Pick(<<"add", "mul", "rmul", "mul", "rmul", "radd", "sub">>)} : NewElem([op |-> "member", f |-> f, a |-> i, g |-> g], elems[i])
Un == IF elems = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(elems))} : \E f \in {Pick(<<"neg", "T", "T", "copy", "inverse", "inverse", "pow">>)} : \E k \in {Rnd(-2..4)} :
       NewElem([op |-> "un", f |-> f, a |-> i, k |-> k], elems[i])
Obs == IF elems = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(elems))} : \E f \in {Pick(<<"lift", "regular", "vector", "bool", "back">>)} :
       Log([op |-> "obs", f |-> f, a |-> i, spoil |-> Rnd(BOOLEAN)]) /\ UNCHANGED <<rings, elems, arrs>>
Eq == IF elems = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(elems))} : \E j \in {IF Rnd(1..3) = 1 THEN Rnd(1..Len(elems)) ELSE Rnd(SameRing(i))} :
       Log([op |-> "eq", a |-> i, b |-> j]) /\ UNCHANGED <<rings, elems, arrs>>
RingEq == \E i \in {Rnd(1..Len(rings))} : \E j \in {Rnd(1..Len(rings))} :
       Log([op |-> "ringeq", a |-> i, b |-> j]) /\ UNCHANGED <<rings, elems, arrs>>
---------------------------------------------------------------------------
NewArr(ev, r, m, n) == arrs' = Append(arrs, [ring |-> r, m |-> m, n |-> n]) /\ Log(ev) /\ UNCHANGED <<rings, elems>>
MaxDim(R) == IF R.ord <= 4 THEN 3 ELSE 2
Small == {r \in 1..Len(rings) : rings[r].ord <= 6 \/ rings[r].q = 2}
RArr(R, m, n) == LET base == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> RElem(R.q, R.ord)])])
                 IN  IF m > 1 /\ Rnd(1..3) = 1 THEN TLCEval([base EXCEPT ![m] = base[1]]) ELSE base
Arr == IF Small = {} THEN Skip ELSE \E r \in {Rnd(Small)} : \E R \in {rings[r]} : \E m \in {Rnd(1..MaxDim(R))} : \E n \in {Rnd(1..MaxDim(R))} :
       NewArr([op |-> "arr", ring |-> r, how |-> IF R.triv THEN Pick(<<"trivial", "trivial", "build">>) ELSE Pick(<<"field", "build", "raw">>), A |-> RArr(R, m, n)], r, m, n)
\* integers and members as entries
Built == IF Small = {} THEN Skip ELSE \E r \in {Rnd(Small)} : \E R \in {rings[r]} : \E m \in {Rnd(1..2)} : \E n \in {Rnd(1..2)} :
       NewArr([op |-> "built", ring |-> r, E |-> TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |->
                IF Rnd(BOOLEAN) THEN <<"int", RandomElement(0..R.q-1)>> ELSE <<"member", RandomElement(1..R.ord)>>])])], r, m, n)
ArrUn == IF arrs = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(arrs))} : \E f \in {Pick(<<"T", "invert", "neg", "int">>)} : \E A \in {arrs[i]} :
       NewArr([op |-> "arrun", f |-> f, a |-> i, c |-> Rnd(-2..3)], A.ring, IF f = "T" THEN A.n ELSE A.m, IF f = "T" THEN A.m ELSE A.n)
Match(i) == {j \in 1..Len(arrs) : arrs[j].ring = arrs[i].ring /\ arrs[j].m = arrs[i].n}
Alike(i) == {j \in 1..Len(arrs) : arrs[j] = arrs[i]}
ArrMul == IF arrs = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(arrs))} :
       IF Match(i) = {} THEN Skip ELSE \E j \in {Rnd(Match(i))} :
       NewArr([op |-> "arrmul", a |-> i, b |-> j], arrs[i].ring, arrs[i].m, arrs[j].n)
ArrAdd == IF arrs = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(arrs))} : \E j \in {Rnd(Alike(i))} :
       \E f \in {IF arrs[i].m > 2 \/ arrs[i].n > 2 THEN Pick(<<"add", "sub">>) ELSE Pick(<<"add", "sub", "vstack", "hstack">>)} :
       NewArr([op |-> "arradd", f |-> f, a |-> i, b |-> j], arrs[i].ring, IF f = "vstack" THEN 2 * arrs[i].m ELSE arrs[i].m, IF f = "hstack" THEN 2 * arrs[i].n ELSE arrs[i].n)
\* every entry multiplied by an element, or by a group member, from one side
Over(i) == {k \in 1..Len(elems) : elems[k] = arrs[i].ring}
ArrScale == IF arrs = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(arrs))} : \E left \in {Rnd(BOOLEAN)} :
       \E k \in {IF Over(i) = {} \/ Rnd(1..3) = 1 THEN 0 ELSE Rnd(Over(i))} :
       NewArr([op |-> "arrscale", a |-> i, left |-> left, e |-> k, g |-> Rnd(1..rings[arrs[i].ring].ord)], arrs[i].ring, arrs[i].m, arrs[i].n)
\* operands that may be over different rings
ArrMix == \E pairs \in {{p \in (1..Len(arrs)) \X (1..Len(arrs)) : arrs[p[1]].ring # arrs[p[2]].ring}} :
       IF pairs = {} THEN Skip ELSE \E p \in {Rnd(pairs)} :
       Log([op |-> "arrmix", a |-> p[1], b |-> p[2], f |-> Pick(<<"add", "sub", "matmul", "vstack">>)]) /\ UNCHANGED <<rings, elems, arrs>>
RingObs == \E r \in {Rnd(1..Len(rings))} : Log([op |-> "ringobs", a |-> r]) /\ UNCHANGED <<rings, elems, arrs>>
ArrObs == IF arrs = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(arrs))} : \E f \in {Pick(<<"reduce", "reduce", "null", "null", "field", "vector", "lift", "regular">>)} :
       Log([op |-> "arrobs", f |-> f, a |-> i, row |-> Rnd(1..arrs[i].m)]) /\ UNCHANGED <<rings, elems, arrs>>
ArrEq == IF arrs = << >> THEN Skip ELSE \E i \in {Rnd(1..Len(arrs))} : \E j \in {Rnd(Alike(i))} :
       Log([op |-> "arreq", a |-> i, b |-> j]) /\ UNCHANGED <<rings, elems, arrs>>
Do(k) == CASE k = "ring" -> MakeRing [] k = "elem" -> Elem [] k = "bin" -> Bin [] k = "int" -> WithInt [] k = "member" -> WithMember
           [] k = "un" -> Un [] k = "obs" -> Obs [] k = "eq" -> Eq [] k = "ringeq" -> RingEq [] k = "arr" -> Arr [] k = "built" -> Built
           [] k = "arrun" -> ArrUn [] k = "arrmul" -> ArrMul [] k = "arradd" -> ArrAdd [] k = "arrobs" -> ArrObs [] k = "arreq" -> ArrEq
           [] k = "arrscale" -> ArrScale [] k = "arrmix" -> ArrMix [] k = "ringobs" -> RingObs
Init == rings = << >> /\ elems = << >> /\ arrs = << >> /\ log = << >> /\ phase = 0
First == phase = 0 /\ phase' = 1 /\ MakeRing
Step == phase \in 1..Steps /\ phase' = phase + 1 /\ \E k \in {Pick(Kinds)} : Do(k)
Emit == phase = Steps + 1 /\ phase' = Steps + 2 /\ PrintT(ToJson(log)) /\ UNCHANGED <<rings, elems, arrs, log>>
Next == First \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
Kinds10 == <<"ring", "elem", "elem", "elem", "bin", "bin", "bin", "int", "member", "member", "un", "un", "un", "obs", "obs", "arr", "built", "arrun", "arrmul", "arradd", "arrobs", "arr", "arrscale", "arrscale", "arrmix", "arrmix", "ringobs">>
Kinds11 == <<"ring", "arr", "arr", "arr", "built", "arrun", "arrmul", "arradd", "arrobs", "arrobs", "arrobs", "arrobs", "arrobs">>
Kinds22 == <<"ring", "ring", "elem", "elem", "bin", "un", "eq", "eq", "eq", "ringeq", "ringeq", "arr", "arrun", "arreq", "arreq">>
Sane == (\A i \in 1..Len(elems) : elems[i] \in 1..Len(rings)) /\ \A i \in 1..Len(arrs) : arrs[i].ring \in 1..Len(rings)
===============================================================================
