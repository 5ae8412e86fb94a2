------------------------------- MODULE ReprTrace -------------------------------
(* What each representation of an operator or of parity checks must say.        *)
EXTENDS GF, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
XZ(p) == CASE p = "I" -> <<0, 0>> [] p = "X" -> <<1, 0>> [] p = "Z" -> <<0, 1>> [] p = "Y" -> <<1, 1>>
PName(v) == CASE v = <<0, 0>> -> "I" [] v = <<1, 0>> -> "X" [] v = <<0, 1>> -> "Z" [] v = <<1, 1>> -> "Y"
\* the name of a qudit operator X(a) Z(b)
QName(v) == IF v[1] = 0 /\ v[2] = 0 THEN "I" ELSE IF v[1] = v[2] THEN "Y(" \o ToString(v[1]) \o ")"
            ELSE (IF v[1] = 0 THEN "" ELSE "X(" \o ToString(v[1]) \o ")") \o (IF v[1] # 0 /\ v[2] # 0 THEN "*" ELSE "") \o (IF v[2] = 0 THEN "" ELSE "Z(" \o ToString(v[2]) \o ")")
OpName(q, v) == IF q = 2 THEN PName(v) ELSE QName(v)
\* the values denoted by a sequence of factors; [ok |-> FALSE] if the string is malformed
Denoted(e) == LET fs == e.fs n == Len(fs) IN
    IF e.junk = "I" THEN [ok |-> TRUE, v |-> <<0, 0>>]                        \* the string "I"
    ELSE IF e.junk # "" \/ n > 2 \/ (\E i \in 1..n : fs[i].form # "(" \/ fs[i].p \notin {"X", "Y", "Z"}) THEN [ok |-> FALSE]
    ELSE IF n = 1 THEN [ok |-> TRUE, v |-> <<IF fs[1].p = "Z" THEN 0 ELSE fs[1].v, IF fs[1].p = "X" THEN 0 ELSE fs[1].v>>]
    ELSE IF fs[1].p = "X" /\ fs[2].p = "Z" THEN [ok |-> TRUE, v |-> <<fs[1].v, fs[2].v>>]
    ELSE IF fs[1].p = "Z" /\ fs[2].p = "X" THEN [ok |-> TRUE, v |-> <<fs[2].v, fs[1].v>>]
    ELSE [ok |-> FALSE]
Nodes(m, n) == {<<"c", i>> : i \in 0..m-1} \cup {<<"d", j>> : j \in 0..n-1}
SeqSet(s) == {s[i] : i \in 1..Len(s)}
NoRepeat(s) == Cardinality(SeqSet(s)) = Len(s)
CEdges(M, m, n) == {<<i - 1, j - 1, M[i][j]>> : <<i, j>> \in {x \in (1..m) \X (1..n) : M[x[1]][x[2]] # 0}}
QEdges(M, m, n) == {<<i - 1, j - 1, M[i][j], M[i][j + n]>> : <<i, j>> \in {x \in (1..m) \X (1..n) : M[x[1]][x[2]] # 0 \/ M[x[1]][x[2] + n] # 0}}
Back(e, M, m, n) == If(e.back = M /\ (m = 0 \/ e.backn = n), "C15.graph-back") \cup If(e.backq = e.q, "C15.graph-field")
CGraphOK(e) == If(NoRepeat(e.nodes) /\ SeqSet(e.nodes) = Nodes(e.m, e.n), "C15.graph-nodes")
    \cup If(NoRepeat(e.edges) /\ SeqSet(e.edges) = CEdges(e.M, e.m, e.n), "C15.graph-edges") \cup Back(e, e.M, e.m, e.n)
QGraphOK(e, M, m, n) == If(NoRepeat(e.nodes) /\ SeqSet(e.nodes) = Nodes(m, n), "C15.graph-nodes")
    \cup If(NoRepeat(e.edges) /\ SeqSet(e.edges) = QEdges(M, m, n), "C15.graph-edges") \cup Back(e, M, m, 2 * n)
    \cup If(e.kind \in (IF e.q > 2 THEN {"QuditOperator", ""} ELSE IF e.from \in {"list", "ints"} THEN {"QuditOperator", "Pauli", ""} ELSE {"Pauli", ""}), "C15.graph-operators")
Join(s) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o " " \o x, "", s)
RowString(q, row, n) == Join(TLCEval([j \in 1..n |-> OpName(q, <<row[j], row[j + n]>>)]))
Css(e) == LET n == e.n IN TLCEval([i \in 1..Len(e.X) |-> e.X[i] \o ZeroVec(n)]) \o TLCEval([i \in 1..Len(e.Z) |-> ZeroVec(n) \o e.Z[i]])
Strs(q, M, n) == TLCEval([i \in 1..Len(M) |-> RowString(q, M[i], n)])
NegInt(q, x) == IF q = 0 THEN -x ELSE Neg(q, x)
Conj(q, v) == LET n == Len(v) \div 2 IN TLCEval([i \in 1..2 * n |-> IF i <= n THEN NegInt(q, v[i + n]) ELSE v[i - n]])
Raised(e) == e.exc # ""
CheckEvent(s, e) ==
    CASE e.op = "pauli" ->
          IF Raised(e) THEN {"C15.pauli-raises"} ELSE
          LET a == XZ(e.a) b == XZ(e.b) IN
          If(e.prod = PName(<<(a[1] + b[1]) % 2, (a[2] + b[2]) % 2>>), "C15.pauli-product") \cup If(e.inv = PName(<<a[2], a[1]>>), "C15.pauli-inverse")
          \cup If(e.str = e.a /\ e.val = a, "C15.pauli-string") \cup If(e.index = (CASE e.a = "X" -> 0 [] e.a = "Z" -> 1 [] OTHER -> -1), "C15.pauli-index")
          \cup If(e.same = (e.a = e.b), "C15.pauli-equal")
      [] e.op = "pauli-parse" -> IF e.s \in {"I", "X", "Y", "Z"} THEN If(~Raised(e) /\ e.val = XZ(e.s), "C15.pauli-parse") ELSE If(Raised(e), "C15.pauli-accepts-malformed")
      [] e.op = "qop" ->
          IF Raised(e) THEN {"C15.qudit-raises"} ELSE LET x == e.v[1] z == e.v[2] IN
          If(e.str = QName(e.v), "C15.qudit-string") \cup If(e.back = e.v, "C15.qudit-parse") \cup If(e.val = e.v, "C15.qudit-value")
          \cup If(e.inv \in {<<z, x>>, <<-z, x>>, <<z, -x>>}, "C15.qudit-fourier") \cup If(e.neg = <<-x, -z>>, "C15.qudit-negation")
          \cup If(e.same = (e.v = e.w), "C15.qudit-equal")
      [] e.op = "qop-parse" -> LET d == Denoted(e) IN IF d.ok THEN If(~Raised(e) /\ e.val = d.v, "C15.qudit-parse") ELSE If(Raised(e), "C15.qudit-accepts-malformed")
      [] e.op \in {"cgraph", "handgraph"} ->
          IF Raised(e) THEN {"C15.graph-raises"}
          ELSE IF e.op = "cgraph" THEN CGraphOK(e)
          ELSE Back([e EXCEPT !.q = IF e.q = 0 THEN 2 ELSE e.q], e.M, e.m, e.n)
      [] e.op = "qgraph" -> IF Raised(e) THEN {"C15.graph-raises"} ELSE QGraphOK(e, e.M, e.m, e.n)
      [] e.op = "cssgraph" -> IF Raised(e) THEN {"C15.graph-raises"}
          ELSE LET M == Css(e) IN If(e.mat = M, "C15.css-matrix") \cup QGraphOK(e, M, Len(M), e.n) \cup If(e.strs = Strs(e.q, M, e.n), "C15.strings")
               \cup If(e.sback = M /\ e.sq = e.q, "C15.strings-back")
      [] e.op = "strings" -> IF Raised(e) THEN {"C15.strings-raises"}
          ELSE If(e.strs = Strs(e.q, e.M, e.n), "C15.strings") \cup If(e.back = e.M /\ e.backq = e.q, "C15.strings-back")
      [] e.op = "ragged" -> IF e.d = 0 THEN If(~Raised(e) /\ e.shape = <<3, 2 * e.n>>, "C15.strings-raises") ELSE If(Raised(e), "C15.strings-accepts-ragged")
      [] e.op = "opstring" -> IF Raised(e) THEN {"C15.opstring-raises"} ELSE
          If(e.names = TLCEval([i \in 1..e.n |-> PName(<<e.v[i], e.v[i + e.n]>>)]) /\ e.sign = 1, "C15.opstring")
      [] e.op = "sconj" -> IF Raised(e) THEN {"C15.conjugate-raises"} ELSE
          If(e.res = TLCEval([i \in 1..Len(e.M) |-> Conj(e.q, e.M[i])]), "C15.conjugate") \cup If(e.kept, "C15.conjugate-input") \cup If(e.backq = e.q, "C15.conjugate-field")
Start(case) == 0
AfterEvent(s, e) == s
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
=================================================================================
