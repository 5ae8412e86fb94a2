------------------------------ MODULE ReprSession ------------------------------
(***************************************************************************)
(* A user converts operators and parity checks between representations:    *)
(* Pauli and qudit operators, strings, Tanner graphs, check strings, stim  *)
(* Pauli strings.  Parses both well-formed and malformed strings.          *)
(***************************************************************************)
EXTENDS GF, Json
CONSTANTS Steps
VARIABLES log, phase
vars == <<log, phase>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Log(ev) == log' = Append(log, ev)
Qs == <<2, 2, 2, 2, 3, 3, 4, 5, 7, 8, 9, 11, 16>>
RVal(q) == IF Rnd(1..2) = 1 THEN 0 ELSE RandomElement(0..q-1)
RMat(q, m, n) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> RVal(q)])])
Names == <<"I", "X", "Y", "Z">>
PauliOp == \E a \in {Pick(Names)} : \E b \in {Pick(Names)} : Log([op |-> "pauli", a |-> a, b |-> b])
BadPaulis == <<"", "x", "XX", "XY", "W", "0", "I ", " Z", "-X", "X(1)", "1">>
PauliStr == \E s \in {IF Rnd(1..2) = 1 THEN Pick(Names) ELSE Pick(BadPaulis)} : Log([op |-> "pauli-parse", s |-> s])
QOp == \E q \in {Pick(Qs)} : \E v \in {<<RVal(q), RVal(q)>>} : \E w \in {IF Rnd(1..3) = 1 THEN v ELSE <<RVal(q), RVal(q)>>} : Log([op |-> "qop", q |-> q, v |-> v, w |-> w])
\* factors of a string; str is the text of one factor
RFactor == [p |-> Pick(<<"X", "X", "X", "Z", "Z", "Z", "Y", "W", "z">>), v |-> RandomElement(0..12), form |-> Pick(<<"(", "(", "(", "(", "(", "(", "(", "(", "[", "open", "none", "neg", "empty", "space", "two">>)]
QStr == \E n \in {Pick(<<1, 1, 2, 2, 2, 2, 3>>)} : \E fs \in {TLCEval([i \in 1..n |-> RFactor])} : \E junk \in {Pick(<<"", "", "", "", "", "", "", "*", "lead*", "plus", "I", "I*">>)} :
    Log([op |-> "qop-parse", fs |-> fs, junk |-> junk])
Size(lo, hi) == Rnd(lo..hi)
CGraph == \E q \in {Pick(Qs)} : \E m \in {Size(IF Rnd(1..6) = 1 THEN 0 ELSE 1, 4)} : \E n \in {Size(1, 5)} :
    Log([op |-> "cgraph", q |-> q, m |-> m, n |-> n, M |-> RMat(q, m, n), from |-> IF q = 2 /\ m > 0 THEN Pick(<<"code", "array", "list", "ints", "default">>) ELSE Pick(<<"code", "array">>)])
QGraph == \E q \in {Pick(Qs)} : \E m \in {Size(1, 4)} : \E n \in {Size(1, 4)} :
    Log([op |-> "qgraph", q |-> q, m |-> m, n |-> n, M |-> RMat(q, m, 2 * n), from |-> IF q = 2 THEN Pick(<<"code", "array", "list", "ints">>) ELSE Pick(<<"code", "array">>)])
\* a CSS code: check sectors given separately, over a common field
CssGraph == \E q \in {Pick(Qs)} : \E mx \in {Size(1, 2)} : \E mz \in {Size(1, 2)} : \E n \in {Size(1, 4)} :
    Log([op |-> "cssgraph", q |-> q, n |-> n, X |-> RMat(q, mx, n), Z |-> RMat(q, mz, n)])
\* a Tanner graph written down by hand: edges, possibly without values
Hand == \E q \in {Pick(<<0, 2, 3, 5>>)} : \E m \in {Size(1, 3)} : \E n \in {Size(1, 4)} :
    Log([op |-> "handgraph", q |-> q, m |-> m, n |-> n, M |-> RMat(IF q = 0 THEN 2 ELSE q, m, n), vals |-> IF q \in {0, 2} THEN Pick(<<TRUE, FALSE>>) ELSE TRUE, shuffle |-> Rnd(0..9)])
Strings == \E q \in {Pick(Qs)} : \E m \in {Size(1, 4)} : \E n \in {Size(1, 4)} :
    Log([op |-> "strings", q |-> q, m |-> m, n |-> n, M |-> RMat(q, m, 2 * n), css |-> FALSE, give |-> IF q = 2 THEN Pick(<<TRUE, FALSE>>) ELSE TRUE, pad |-> Pick(<<0, 0, 1, 2>>)])
Ragged == \E q \in {Pick(Qs)} : \E n \in {Size(1, 3)} : \E d \in {Pick(<<-1, 1, 0>>)} : \E at \in {Rnd(2..3)} :
    Log([op |-> "ragged", q |-> q, n |-> n, d |-> d, at |-> at])
OpString == \E n \in {Size(1, 6)} : \E v \in {TLCEval([i \in 1..2 * n |-> RVal(2)])} : \E t \in {Pick(<<"field", "int", "list", "uint8">>)} : Log([op |-> "opstring", n |-> n, v |-> v, as |-> t])
SConj == \E q \in {Pick(Qs \o <<0, 0>>)} : \E n \in {Size(1, 3)} : \E m \in {Size(0, 3)} :
    Log([op |-> "sconj", q |-> q, n |-> n, one |-> m = 0, M |-> IF q = 0 THEN TLCEval([i \in 1..Max({m, 1}) |-> TLCEval([j \in 1..2 * n |-> RandomElement(0..6) - 3])]) ELSE RMat(q, Max({m, 1}), 2 * n)])
Do(k) == CASE k = "pauli" -> PauliOp [] k = "pparse" -> PauliStr [] k = "qop" -> QOp [] k = "qparse" -> QStr [] k = "cgraph" -> CGraph [] k = "qgraph" -> QGraph
           [] k = "css" -> CssGraph [] k = "hand" -> Hand [] k = "strings" -> Strings [] k = "ragged" -> Ragged [] k = "opstring" -> OpString [] k = "sconj" -> SConj
Kinds == <<"pauli", "pparse", "qop", "qparse", "qparse", "cgraph", "cgraph", "qgraph", "qgraph", "css", "hand", "strings", "strings", "strings", "ragged", "opstring", "sconj">>
Init == log = << >> /\ phase = 0
Step == phase < Steps /\ phase' = phase + 1 /\ \E k \in {Pick(Kinds)} : Do(k)
Emit == phase = Steps /\ phase' = Steps + 1 /\ PrintT(ToJson(log)) /\ UNCHANGED log
Spec == Init /\ [][Step \/ Emit]_vars
===============================================================================
