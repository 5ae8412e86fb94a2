----------------------------- MODULE CircuitSession -----------------------------
(***************************************************************************)
(* A user asks for encoding circuits of codes, for the logical action of   *)
(* physical circuits, and for transversal circuits.  Codes are built,      *)
(* and their logical operators replaced, as in CodeSession.                *)
(* A physical circuit is given by its action in the decoded frame, where   *)
(* the first k qubits are the logical ones, the next g the gauge qubits,   *)
(* and Z on each remaining qubit is a stabilizer.                          *)
(***************************************************************************)
EXTENDS CodeSession

PauliRow(n, s) == [i \in 1..2 * n |-> IF i <= n THEN (IF s[i] \in {"X", "Y"} THEN 1 ELSE 0) ELSE (IF s[i - n] \in {"Z", "Y"} THEN 1 ELSE 0)]
Rows(n, ss) == TLCEval([i \in 1..Len(ss) |-> TLCEval(PauliRow(n, ss[i]))])
Family == <<
    [n |-> 2, m |-> <<<<"Z", "Z">>>>], [n |-> 2, m |-> <<<<"X", "X">>, <<"Z", "Z">>>>],
    [n |-> 3, m |-> <<<<"Z", "Z", "I">>, <<"I", "Z", "Z">>>>],
    [n |-> 3, m |-> <<<<"X", "X", "X">>>>],
    [n |-> 4, m |-> <<<<"X", "X", "X", "X">>, <<"Z", "Z", "Z", "Z">>>>],
    [n |-> 4, m |-> <<<<"X", "X", "X", "X">>, <<"Z", "Z", "Z", "Z">>>>],
    [n |-> 4, m |-> <<<<"X", "X", "I", "I">>, <<"I", "I", "X", "X">>, <<"Z", "I", "Z", "I">>, <<"I", "Z", "I", "Z">>>>],     \* Bacon-Shor
    [n |-> 4, m |-> <<<<"Y", "Y", "Y", "Y">>, <<"Z", "Z", "Z", "Z">>>>],
    [n |-> 5, m |-> <<<<"X", "Z", "Z", "X", "I">>, <<"I", "X", "Z", "Z", "X">>, <<"X", "I", "X", "Z", "Z">>, <<"Z", "X", "I", "X", "Z">>>>],
    [n |-> 4, m |-> <<<<"X", "Z", "I", "I">>, <<"I", "X", "Z", "I">>, <<"I", "I", "X", "Z">>, <<"Z", "I", "I", "X">>>>],
    [n |-> 6, m |-> <<<<"X", "X", "X", "X", "X", "X">>, <<"Z", "Z", "Z", "Z", "Z", "Z">>>>],
    [n |-> 3, m |-> <<<<"X", "Z", "Z">>, <<"Z", "X", "Z">>, <<"Z", "Z", "X">>>>],
    [n |-> 3, m |-> <<<<"X", "X", "I">>, <<"Z", "I", "Z">>>>] >>
\* a known code, its sites permuted and its local frames changed
Known == \E f \in {Pick(Family)} : \E r \in {RSeq(f.n, 0..59)} : \E p \in {PermFrom(r, f.n)} :
         \E g \in {TLCEval([i \in 1..f.n |-> Pick(<<"I", "I", "I", "I", "H", "S", "C_XYZ">>)])} : \E loc \in {Pick(<<TRUE, FALSE>>)} :
         \E M \in {TLCEval([i \in 1..Len(f.m) |-> LET v == Embed(Rows(f.n, f.m)[i], f.n, p, f.n) IN
                       IF loc THEN ApplyCircuit(v, f.n, [j \in 1..f.n |-> [g |-> g[j], t |-> <<j>>]]) ELSE v])} :
           /\ objs' = Append(objs, Summary(2, f.n, M, FALSE))
           /\ log' = Append(log, [op |-> "new", q |-> 2, n |-> f.n, m |-> M, flag |-> "auto"])
Enc == \E o \in {Obj} : Ask([op |-> "enc", o |-> o, via |-> Pick(<<"tableau", "circuit", "circuit">>), kw |-> Rnd(1..4) = 1])

Any1(S) == IF Cardinality(S) < 2 \/ Rnd(1..3) = 1 THEN [g |-> Pick(Gates1 \o <<"Y", "SQRT_Y", "H_YZ", "H_XY">>), t |-> <<Rnd(S)>>]
           ELSE LET a == TLCEval(Rnd({p \in S \X S : p[1] # p[2]})) IN [g |-> Pick(Gates2), t |-> a]
\* a gate of the decoded frame that preserves the code space
KeepGate(k, g, n) ==
    LET L == 1..k  G == k+1..k+g  S == k+g+1..n
        c == Rnd(1..10)
    IN  IF c <= 4 /\ k > 0 THEN Any1(L)
        ELSE IF c = 5 /\ g > 0 THEN Any1(G)
        ELSE IF c <= 8 /\ S # {} /\ k > 0 THEN [g |-> Pick(<<"CX", "CY", "CZ">>), t |-> <<Rnd(S), Rnd(L)>>]
        ELSE IF Cardinality(S) >= 2 /\ c # 9 THEN LET a == TLCEval(Rnd({p \in S \X S : p[1] # p[2]})) IN [g |-> Pick(<<"CX", "CZ", "SWAP">>), t |-> a]
        ELSE IF S # {} THEN (IF g > 0 /\ Rnd(1..2) = 1 THEN [g |-> Pick(<<"CX", "CZ">>), t |-> <<Rnd(S), Rnd(G)>>] ELSE [g |-> Pick(<<"S", "S_DAG", "Z">>), t |-> <<Rnd(S)>>])
        ELSE Any1(1..n)
\* a gate that acts separately on the logical qubits and on the others (the code is deformed)
SplitGate(k, n) == IF k > 0 /\ (k = n \/ Rnd(1..2) = 1) THEN Any1(1..k) ELSE Any1(k+1..n)
\* a gate restricted as KeepGate, but respecting the case of no logical qubits and all-gauge codes
Tab == \E o \in {Obj} : IF objs[o].q # 2 THEN Skip ELSE
       \E d \in {Rnd(1..3) = 1} : \E m \in {Rnd(0..8)} :
       \E ops \in {TLCEval([i \in 1..m |-> IF d THEN SplitGate(objs[o].k, objs[o].n) ELSE
                        IF objs[o].k + objs[o].g = objs[o].n /\ objs[o].g > 0 THEN (IF objs[o].k > 0 /\ Rnd(1..2) = 1 THEN Any1(1..objs[o].k) ELSE Any1(objs[o].k + 1..objs[o].n))
                        ELSE KeepGate(objs[o].k, objs[o].g, objs[o].n)])} :
          Ask([op |-> "tab", o |-> o, ops |-> ops, deform |-> d, pad |-> Bool])

GateSets == << <<"SWAP">>, <<"H">>, <<"S">>, <<"SQRT_X">>, <<"H", "SWAP">>, <<"SWAP", "S">>, <<"SWAP", "SQRT_X">>, <<"S", "H">>, <<"S", "H", "SWAP">>,
               <<"H", "S", "SWAP">>, <<"SQRT_X", "S">>, <<"S", "H", "SQRT_X", "SWAP">>, <<"SQRT_X", "H">>, <<"default">>, << >>, <<"H", "H">> >>
BadSets == << <<"T">>, <<"S", "CX">>, <<"S_DAG">>, <<"h">>, <<"SWAP", "X">>, <<"">> >>
GSet(o) == IF Rnd(1..14) = 1 THEN Pick(BadSets) ELSE Pick(GateSets)
\* the search is exponential: small codes, smaller ones for full gate sets
Full(gs) == gs = <<"default">> \/ Cardinality({gs[i] : i \in 1..Len(gs)} \ {"SWAP"}) > 1
CanSearch(o, gs, d) ==
    LET r == IF d THEN 2 * objs[o].k ELSE objs[o].n - objs[o].k + objs[o].g     \* constraints on the operations
        m == IF Full(gs) THEN (IF r <= 1 THEN 2 ELSE IF r = 2 THEN 3 ELSE 4) ELSE IF r = 0 THEN 3 ELSE IF r = 1 THEN 4 ELSE IF r = 2 THEN 5 ELSE 6
    IN  objs[o].q # 2 \/ objs[o].n <= m
Trans == \E o \in {Obj} : \E gs \in {GSet(o)} : \E d \in {Pick(<<FALSE, FALSE, TRUE>>)} : IF ~CanSearch(o, gs, d) THEN Skip ELSE
         Ask([op |-> "trans", o |-> o, gates |-> gs, as |-> Pick(<<"list", "tuple", "set">>), deform |-> d, redundant |-> Pick(<<TRUE, FALSE>>)])
Request(k) == IF k > 0 /\ Rnd(1..2) = 1 THEN [t |-> "gates", ops |-> LET m == Rnd(0..3) IN TLCEval([i \in 1..m |-> Any1(1..k)]), as |-> Pick(<<"circuit", "tableau">>)]
              ELSE [t |-> "found", word |-> LET m == Rnd(0..3) IN RSeq(m, 0..9), paulis |-> IF k = 0 THEN << >> ELSE LET m == Rnd(0..2) IN TLCEval([i \in 1..m |-> [g |-> Pick(<<"X", "Y", "Z">>), t |-> <<Rnd(1..k)>>]]), as |-> "tableau"]
FindT == \E o \in {Obj} : \E gs \in {GSet(o)} : \E d \in {Pick(<<FALSE, FALSE, FALSE, TRUE>>)} : IF ~CanSearch(o, gs, d) THEN Skip ELSE \E m \in {Pick(<<1, 1, 2, 3>>)} :
         \E rq \in {TLCEval([i \in 1..m |-> Request(objs[o].k)])} :
         Ask([op |-> "find", o |-> o, gates |-> gs, as |-> Pick(<<"list", "tuple", "set">>), deform |-> d, req |-> rq, one |-> Bool])
DoC(kind) == CASE kind = "known" -> Known [] kind = "enc" -> Enc [] kind = "tab" -> Tab [] kind = "trans" -> Trans [] kind = "find" -> FindT [] OTHER -> Do(kind)
FirstC == phase = 0 /\ phase' = 1 /\ \E f \in {Pick(<<1, 2, 2, 3>>)} : IF f = 1 THEN NewCode ELSE IF f = 2 THEN Known ELSE NewCSS
StepC == phase \in 1..Steps /\ phase' = phase + 1 /\ \E kind \in {Pick(Kinds)} : DoC(kind)
SpecC == Init /\ [][FirstC \/ StepC \/ Emit]_vars
CKinds == <<"new", "known", "newcss", "setl", "setl", "enc", "enc", "enc", "tab", "tab", "tab", "trans", "trans", "find", "find">>
CQs == <<2, 2, 2, 2, 2, 2, 2, 3, 4>>
CN == [q \in {2, 3, 4} |-> IF q = 2 THEN 5 ELSE 2]
CDer == [q \in {2, 3, 4} |-> 8]
WN == [q \in {2, 3, 4} |-> IF q = 2 THEN 9 ELSE 2]
CKindsEnc == <<"new", "new", "newcss", "newcss", "setl", "enc", "enc", "enc", "tab", "tab", "stack", "conj", "dual", "deform">>
================================================================================
