---------------------------- MODULE DecoderSession ----------------------------
(***************************************************************************)
(* A user builds decoders and decodes with them, repeatedly, in any order, *)
(* writing into the answers obtained earlier.                              *)
(***************************************************************************)
EXTENDS DecoderAlgebra, Json
CONSTANTS Kinds, Steps
VARIABLES decs, log, phase
vars == <<decs, log, phase>>
Rnd(S) == RandomElement(S)
RSeq(n, S) == TLCEval([i \in 1..n |-> RandomElement(S)])
Pick(s) == s[RandomElement(1..Len(s))]
RVec(q, n) == TLCEval([i \in 1..n |-> RandomElement(0..q-1)])
RMat(q, m, n) == TLCEval([i \in 1..m |-> IF RandomElement(1..2) = 1 THEN RVec(q, n)
                          ELSE TLCEval([j \in 1..n |-> IF RandomElement(1..3) = 1 THEN RandomElement(1..q-1) ELSE 0])])
Skip == UNCHANGED <<decs, log>>
\* columns with at most two ones (a matching problem)
GraphLike(m, n) == LET a == RSeq(n, 1..m) b == RSeq(n, 1..m) IN
    TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> IF a[j] = i \/ b[j] = i THEN 1 ELSE 0])])
MaxN(q, symp) == IF symp THEN (CASE q = 2 -> 5 [] q = 3 -> 3 [] q = 4 -> 2 [] OTHER -> 2)
                 ELSE CASE q = 2 -> 8 [] q = 3 -> 5 [] q \in {4, 5} -> 4 [] OTHER -> 3
QFor(kind) == CASE kind \in {"osd", "lsd", "bf", "mwpm"} -> 2 [] kind = "ilp" -> Pick(<<2, 2, 3, 3, 5, 7>>)
                [] OTHER -> Pick(<<2, 2, 3, 4, 5, 7, 8, 9>>)
BP(kind) == kind \in {"osd", "lsd", "bf"}
Make ==
    \E kind \in {Pick(Kinds)} : \E q \in {QFor(kind)} : \E symp \in {IF kind \in {"lookup", "guf"} THEN Rnd(BOOLEAN) ELSE FALSE} :
    \E big \in {q <= 4 /\ Rnd(1..4) = 1} :
    \E n \in {IF big THEN Rnd(IF symp THEN 6..10 ELSE 10..18) ELSE Rnd(1..MaxN(q, symp))} : \E m \in {Rnd(1..(n + 1))} :
    \E H \in {IF kind = "mwpm" THEN GraphLike(m, n) ELSE RMat(q, m, IF symp THEN 2 * n ELSE n)} :
    \E w \in {IF big THEN Rnd(1..2) ELSE Pick(<<-1, n, n, Rnd(0..n)>>)} :
       \* default-weight lookup of a code whose checks do not commute has no stated meaning
       /\ decs' = Append(decs, [q |-> q, n |-> n, H |-> H, symp |-> symp, kind |-> kind])
       /\ log' = Append(log, [op |-> "make", kind |-> kind, q |-> q, n |-> n, H |-> H, symp |-> symp,
              w |-> IF kind = "lookup" THEN (IF w = -1 /\ symp /\ ~Commute(q, H, H, n) THEN n ELSE w)
                    ELSE IF kind = "guf" THEN (IF big THEN -1 ELSE Pick(<<-1, -1, n, 1>>)) ELSE -1,
              arr |-> IF q = 2 THEN Pick(<<"field", "plain", "uint8">>) ELSE "field",
              via |-> Pick(<<"get", "get", "decode", "class">>)])
\* a few low-weight errors, any error, or (rarely) an arbitrary syndrome
\* (the BP decoders of the ldpc package may hang on a syndrome that no error explains)
LowError(p) == LET wid == Width(p) k == Rnd(0..2) at == RSeq(k, 1..wid) val == RSeq(k, 1..p.q-1)
               IN  FoldLeft(LAMBDA v, i : [v EXCEPT ![at[i]] = val[i]], ZeroVec(wid), Idx[k])
Decode == \E d \in {Rnd(1..Len(decs))} : \E p \in {decs[d]} :
          \E mode \in {Pick(<<"low", "low", "any", "any", "raw">>)} :
          \E err \in {IF mode = "low" THEN LowError(p) ELSE RVec(p.q, Width(p))} :
          \E s \in {IF mode = "raw" /\ ~BP(p.kind) THEN RVec(p.q, Len(p.H)) ELSE SyndromeOf(p, err)} :
             /\ log' = Append(log, [op |-> "decode", d |-> d, s |-> s, wt |-> IF mode = "raw" THEN -1 ELSE WeightOf(p, err), spoil |-> Rnd(BOOLEAN),
                                    arr |-> IF BP(p.kind) \/ p.kind = "mwpm" THEN "plain" ELSE Pick(<<"plain", "plain", "uint8", "field">>)])
             /\ UNCHANGED decs
Block == \E d \in {Rnd(1..Len(decs))} : \E p \in {decs[d]} : \E k \in {Rnd(1..3)} :
         \E es \in {TLCEval([i \in 1..k |-> IF Rnd(1..2) = 1 THEN LowError(p) ELSE RVec(p.q, Width(p))])} :
             /\ log' = Append(log, [op |-> "block", d |-> d, ss |-> TLCEval([i \in 1..k |-> SyndromeOf(p, es[i])])])
             /\ UNCHANGED decs
Direct == \E d \in {Rnd(1..Len(decs))} : \E p \in {decs[d]} :
          IF p.symp THEN Skip ELSE
             \E e \in {IF Rnd(1..2) = 1 THEN LowError(p) ELSE RVec(p.q, p.n)} :
             \E K \in {NullSpace(p.q, p.H, p.n)} :
             \E word \in {IF Rnd(1..2) = 1 THEN e ELSE VAdd(p.q, e, VecMat(p.q, RVec(p.q, Len(K)), K, p.n))} :
             /\ log' = Append(log, [op |-> "direct", d |-> d, word |-> word])
             /\ UNCHANGED decs
Custom == /\ log' = Append(log, [op |-> "custom", how |-> Pick(<<"constructor", "static">>), n |-> Rnd(1..5)])
          /\ UNCHANGED decs
Do(k) == CASE k \in 1..3 -> Make [] k \in 4..12 -> Decode [] k \in 13..14 -> Block [] k \in 15..16 -> Direct [] k = 17 -> Custom
Init == decs = << >> /\ log = << >> /\ phase = 0
First == phase = 0 /\ phase' = 1 /\ Make
Step == phase \in 1..Steps /\ phase' = phase + 1 /\ \E k \in {Rnd(1..17)} : Do(k)
Emit == phase = Steps + 1 /\ phase' = Steps + 2 /\ PrintT(ToJson(log)) /\ UNCHANGED <<decs, log>>
Next == First \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
KindsDef == <<"ilp", "lookup", "lookup", "guf", "guf", "osd", "lsd", "bf", "mwpm", "default">>
Sane == \A i \in 1..Len(decs) : \A r \in 1..Len(decs[i].H) : Len(decs[i].H[r]) = Width(decs[i])
===============================================================================
