------------------------------ MODULE TannerTrace ------------------------------
(* Left-right Cayley complexes, Tanner codes, and quantum Tanner codes.         *)
EXTENDS Perms, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
SeqSet(s) == {s[i] : i \in 1..Len(s)}
NoRepeat(s) == Cardinality(SeqSet(s)) = Len(s)
Symmetric(A) == \A a \in A : PInv(a) \in A
\* the double (bipartite) or quadruple cover, as permutations of two or four more points
CovA(A, bip) == {a \o (IF bip THEN <<Len(a) + 1, Len(a)>> ELSE <<Len(a) + 1, Len(a), Len(a) + 2, Len(a) + 3>>) : a \in A}
CovB(B, bip) == {b \o (IF bip THEN <<Len(b) + 1, Len(b)>> ELSE <<Len(b), Len(b) + 1, Len(b) + 3, Len(b) + 2>>) : b \in B}
RECURSIVE Reach(_, _, _, _)
Reach(S, new, A, B) == IF new = {} THEN S ELSE LET next == TLCEval(({PMul(a, x) : a \in A, x \in new} \cup {PMul(x, b) : x \in new, b \in B}) \ S) IN Reach(TLCEval(S \cup next), next, A, B)
RECURSIVE Diagonal(_, _, _, _)
Diagonal(S, new, A, B) == IF new = {} THEN S ELSE LET next == TLCEval({PMul(PMul(a, x), b) : a \in A, b \in B, x \in new} \ S) IN Diagonal(TLCEval(S \cup next), next, A, B)
NoConjugacy(G, A, B) == \A g \in G, a \in A, b \in B : PMul(a, g) # PMul(g, b)
Face(g, a, b) == {g, PMul(a, g), PMul(g, b), PMul(PMul(a, g), b)}
\* the complex generated by (cover) subsets A and B
Complex(n, A, B) == LET e == PId(n) V == Reach({e}, {e}, A, B) V0 == Diagonal({e}, {e}, A, B) IN
    [V |-> V, L |-> {<<{g, PMul(a, g)}, "L">> : g \in V, a \in A}, R |-> {<<{g, PMul(g, b)}, "R">> : g \in V, b \in B}, V0 |-> V0,
     X |-> {<<g, Face(g, a, b), a, b>> : g \in V0, a \in A, b \in B},
     Z |-> {<<PMul(a, g), Face(g, a, b), PInv(a), b>> : g \in V0, a \in A, b \in B}]
Edge(x) == <<{x[1], x[2]}, x[3]>>
Incidence(x) == <<x[1], SeqSet(x[2]), x[3], x[4]>>
ReadEdges(s) == {Edge(s[i]) : i \in 1..Len(s)}
ReadIncidences(s) == {Incidence(s[i]) : i \in 1..Len(s)}
GraphOK(nodes, edges, K) ==
    If(NoRepeat(nodes) /\ SeqSet(nodes) = K.V, "C18.vertices")
    \cup (LET got == ReadEdges(edges) want == K.L \cup K.R IN
          If({x[1] : x \in got} = {x[1] : x \in want} /\ Cardinality({x[1] : x \in got}) = Len(edges), "C18.edges") \cup If(got \subseteq want, "C18.edge-types"))
CayleyClauses(e) ==
    LET A == SeqSet(e.A) B == SeqSet(e.B) n == e.n sym == Symmetric(A) /\ Symmetric(B)
        comp == Reach({PId(n)}, {PId(n)}, A, B) full == Closure(A \cup B, n)
        strict == NoConjugacy(full, A, B) weak == NoConjugacy(comp, A, B)
    IN  If(strict => e.tnc, "C18.no-conjugacy") \cup If(~weak => ~e.tnc, "C18.no-conjugacy")
        \cup GraphOK(e.rawnodes, e.rawedges, [V |-> comp, L |-> {<<{g, PMul(a, g)}, "L">> : g \in comp, a \in A}, R |-> {<<{g, PMul(g, b)}, "R">> : g \in comp, b \in B}])
        \cup (IF ~sym THEN If(e.exc = "ValueError", "C18.accepts-asymmetric")
              ELSE IF e.bip /\ ~weak THEN If(e.exc = "ValueError", "C18.accepts-conjugate")
              ELSE IF e.bip /\ ~strict THEN {}
              ELSE IF e.exc # "" THEN {"C18.rejects-complex"}
              ELSE LET CA == CovA(A, e.bip) CB == CovB(B, e.bip) K == Complex(n + (IF e.bip THEN 2 ELSE 4), CA, CB) IN
                   If(SeqSet(e.ca) = CA /\ SeqSet(e.cb) = CB, "C18.cover") \cup If(SeqSet(e.sa) = A /\ SeqSet(e.sb) = B /\ e.bip_ = e.bip, "C18.subsets")
                   \cup GraphOK(e.nodes, e.edges, K)
                   \cup If(ReadIncidences(e.xe) = K.X /\ Len(e.xe) = Cardinality(K.X), "C18.subgraph-x") \cup If(ReadIncidences(e.ze) = K.Z /\ Len(e.ze) = Cardinality(K.Z), "C18.subgraph-z")
                   \cup If(\A i \in 1..Len(e.xe) : Cardinality(SeqSet(e.xe[i][2])) = 4, "C18.degenerate-face"))
---------------------------------------------------------------------------
\* the place of bit number t among the neighbours of source i
Rank1(s, t) == Cardinality({u \in 1..Len(s) : s[u] < s[t]}) + 1
TannerMatrix(e) == LET used == SetToSortSeq(UNION {SeqSet(e.nbr[i]) : i \in 1..Len(e.nbr)}, <) m == Len(e.H) IN
    TLCEval([r \in 1..Len(e.nbr) * m |-> LET i == ((r - 1) \div m) + 1 row == ((r - 1) % m) + 1 IN
        TLCEval([c \in 1..Len(used) |-> IF used[c] \in SeqSet(e.nbr[i])
                 THEN LET t == CHOOSE t \in 1..e.d : e.nbr[i][t] = used[c] IN e.H[row][IF e.sort THEN Rank1(e.lab[i], t) ELSE Rank1(e.nbr[i], t)]
                 ELSE 0])])
\* undirected graphs: one bit per edge
Ends(x) == {x[1], x[2]}
NbrEdges(e, v) == SetToSeq({k \in 1..Len(e.edges) : v \in Ends(e.edges[k])})
UColumn(e, k) == LET m == Len(e.H) IN
    TLCEval([r \in 1..e.n * m |-> LET v == (r - 1) \div m row == ((r - 1) % m) + 1 IN
        IF v \notin Ends(e.edges[k]) THEN 0
        ELSE IF ~e.sort THEN e.H[row][1]
        ELSE LET inc == NbrEdges(e, v) t == CHOOSE t \in 1..Len(inc) : inc[t] = k IN e.H[row][e.lab[v + 1][t] + 1]])
SameColumns(M, want, n) == LET cols == Transpose(M, n) IN
    n = Len(want) /\ \A k \in 1..n : Cardinality({j \in 1..n : want[j] = want[k]}) = Cardinality({j \in 1..n : cols[j] = want[k]})
---------------------------------------------------------------------------
\* quantum Tanner codes
Lex(p, r) == \E i \in 1..Len(p) : p[i] < r[i] /\ \A j \in 1..i-1 : p[j] = r[j]
Sorted(S) == SetToSortSeq(S, Lex)
Local(q, V, cols, N, GA, na, GB, nb, face(_, _, _), SA, SB) ==  \* rows: for all v, the words of GA times GB on the faces at v
    LET vs == SetToSeq(V) pos(v) == TLCEval([k \in 1..na * nb |-> LET f == face(v, SA[((k - 1) \div nb) + 1], SB[((k - 1) % nb) + 1]) IN CHOOSE c \in 1..N : cols[c] = f])
        rows(v) == LET p == pos(v) IN
            FoldLeft(LAMBDA acc, i : acc \o TLCEval([j \in 1..Len(GB) |-> FoldLeft(LAMBDA w, k : [w EXCEPT ![p[k]] = Mul(q, GA[i][((k - 1) \div nb) + 1], GB[j][((k - 1) % nb) + 1])],
                        ZeroVec(N), Idx[na * nb])]), << >>, Idx[Len(GA)])
    IN  FoldLeft(LAMBDA acc, i : acc \o rows(vs[i]), << >>, Idx[Len(vs)])
Support(v) == {j \in 1..Len(v) : v[j] # 0}
RectM(q, M, n) == \A i \in 1..Len(M) : Len(M[i]) = n /\ \A j \in 1..n : M[i][j] \in 0..q-1
QTClauses(e) ==
    LET A == SeqSet(e.A) B == SeqSet(e.B) n == e.n q == e.q
        comp == Reach({PId(n)}, {PId(n)}, A, B) full == Closure(A \cup B, n)
        Hb == IF e.none THEN NullSpace(q, e.Ha, e.na) ELSE e.Hb
    IN  IF e.none /\ e.na # e.nb THEN If(e.exc = "ValueError", "C18.accepts-underspecified")
        ELSE IF e.bip /\ ~NoConjugacy(comp, A, B) THEN If(e.exc = "ValueError", "C18.accepts-conjugate")
        ELSE IF e.bip /\ ~NoConjugacy(full, A, B) THEN {}
        ELSE IF e.exc # "" THEN {"C18.raises-qt"}
        ELSE LET CA == CovA(A, e.bip) CB == CovB(B, e.bip) K == Complex(n + (IF e.bip THEN 2 ELSE 4), CA, CB)
                 cols == TLCEval([c \in 1..Len(e.cols) |-> SeqSet(e.cols[c])]) N == Len(cols)
                 faces == {x[2] : x \in K.X}
             IN  IF ~(SeqSet(cols) = faces /\ NoRepeat(cols) /\ RectM(q, e.X, N) /\ RectM(q, e.Z, N) /\ e.q_ = q) THEN {"C18.qt-qudits"}
                 ELSE LET GA == NullSpace(q, e.Ha, e.na) GB == NullSpace(q, Hb, e.nb)
                          DA == NullSpace(q, GA, e.na) DB == NullSpace(q, GB, e.nb)
                          SA == Sorted(CA) SB == Sorted(CB)
                          wantX == Local(q, K.V0, cols, N, GA, e.na, GB, e.nb, LAMBDA v, a, b : Face(v, a, b), SA, SB)
                          V1 == {x[1] : x \in K.Z}
                          wantZ == Local(q, V1, cols, N, DA, e.na, DB, e.nb, LAMBDA v, a, b : Face(v, a, b), SA, SB)
                          near(v) == {c \in 1..N : v \in cols[c]}
                          localx(w) == \E v \in K.V0 : Support(w) \subseteq near(v)
                          localz(w) == \E v \in V1 : Support(w) \subseteq near(v)
                      IN  If(SameSpan(q, e.X, wantX, N), "C18.qt-x-checks") \cup If(SameSpan(q, e.Z, wantZ, N), "C18.qt-z-checks")
                          \cup If(\A i \in 1..Len(e.X) : localx(e.X[i]), "C18.qt-local") \cup If(\A i \in 1..Len(e.Z) : localz(e.Z[i]), "C18.qt-local")
                          \cup If(AllZero(MulT(q, e.X, e.Z)), "C18.qt-commute")
                          \cup If(e.HA = e.Ha /\ SameSpan(q, e.HB, Hb, e.nb), "C18.qt-seeds")
---------------------------------------------------------------------------
\* a quantum Tanner code remembered: [ok, q, A, B, HA, HB, bip, X, Z]
QTOf(e) == IF e.exc # "" THEN [ok |-> FALSE] ELSE [ok |-> TRUE, q |-> e.q, A |-> SeqSet(e.A), B |-> SeqSet(e.B), HA |-> e.HA, HB |-> e.HB, na |-> e.na, nb |-> e.nb, bip |-> e.bip, X |-> e.X, Z |-> e.Z]
SaveClauses(e, o) ==
    IF ~o.ok THEN {} ELSE IF e.exc # "" THEN {"C15.qt-save-raises"}
    ELSE If(SeqSet(e.A) = o.A /\ SeqSet(e.B) = o.B, "C15.qt-subsets") \cup If(e.HA = o.HA /\ e.HB = o.HB, "C15.qt-seed-codes") \cup If(e.q = o.q, "C15.qt-field")
         \cup If(e.bip = o.bip, "C15.qt-bipartite") \cup If(e.X = o.X /\ e.Z = o.Z, "C15.qt-checks") \cup If(e.eq, "C15.qt-equal")
Same(x, y) == x.q = y.q /\ x.A = y.A /\ x.B = y.B /\ x.HA = y.HA /\ x.HB = y.HB /\ x.na = y.na /\ x.nb = y.nb /\ x.bip = y.bip
EqClauses(e, x, y) ==
    IF ~x.ok \/ (e.change = "other" /\ ~y.ok) THEN {} ELSE IF e.exc # "" THEN {"C22.raises-qt-equality"} ELSE IF ~e.done THEN {}
    ELSE If(e.r = (CASE e.change = "other" -> Same(x, y) [] e.change = "none" -> TRUE [] e.change = "css" -> FALSE
                     [] OTHER -> FALSE), "C22.qt-equality") \cup If(e.r2 = e.r, "C22.qt-equality-symmetric")
RandomClauses(e) ==
    IF e.exc # "" THEN If(e.exc = "ValueError" /\ e.bip, "C19.raises-qt-random")
    ELSE LET A == SeqSet(e.A1) B == SeqSet(e.B1) IN
         If(Symmetric(A) /\ Symmetric(B) /\ Cardinality(A) = e.na /\ Cardinality(B) = e.nb, "C19.qt-random-subsets")
         \cup If(e.one => A = B, "C19.qt-random-one-subset") \cup If(A \subseteq SeqSet(e.mem) /\ B \subseteq SeqSet(e.mem), "C19.qt-random-members")
         \cup If(e.same, "C19.qt-random-seed") \cup If(e.HA = e.Ha /\ SameSpan(e.q, e.HB, IF e.none THEN NullSpace(e.q, e.Ha, e.na) ELSE e.Hb, e.nb) /\ e.q_ = e.q, "C18.qt-random-seeds")
         \cup If(e.bip_ = e.bip, "C18.qt-random-bipartite") \cup If(e.global, "C19.qt-random-state")
CheckEvent(s, e) ==
    CASE e.op = "cayley" -> CayleyClauses(e)
      [] e.op = "tanner" -> IF e.exc # "" THEN {"C18.raises-tanner"} ELSE LET M == TannerMatrix(e) IN If(e.M = M /\ e.q_ = e.q, "C18.tanner-checks") \cup If(e.again, "C18.tanner-input")
      [] e.op = "utanner" -> IF e.exc # "" THEN {"C18.raises-tanner"}
            ELSE IF ~(Len(e.M) = e.n * Len(e.H) /\ RectM(e.q, e.M, Len(e.edges))) THEN {"C18.tanner-shape"}
            ELSE If(SameColumns(e.M, TLCEval([k \in 1..Len(e.edges) |-> UColumn(e, k)]), Len(e.edges)), "C18.tanner-undirected") \cup If(e.again, "C18.tanner-input") \cup If(e.again, "C07.tanner-input")
      [] e.op = "qt" -> QTClauses(e)
      [] e.op = "qtsave" -> SaveClauses(e, s[e.o])
      [] e.op = "qteq" -> EqClauses(e, s[e.a], s[e.b])
      [] e.op = "qtrandom" -> RandomClauses(e)
      [] OTHER -> {}
Start(case) == << >>
AfterEvent(s, e) == IF e.op = "qt" THEN Append(s, QTOf(e)) ELSE s
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
=================================================================================
