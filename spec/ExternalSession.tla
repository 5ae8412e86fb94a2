------------------------------ MODULE ExternalSession ------------------------------
(***************************************************************************)
(* The world outside of the library: an algebra system that may be absent, *)
(* old, without packages or failing, and a web site that may be out of     *)
(* reach, wholly or in part, or not list what is asked for.  Processes     *)
(* come one after another and share a store of answers.  Every lookup says *)
(* what the world would answer at that moment.  A user may agree to have   *)
(* missing packages fetched by git, which may fail.                        *)
(***************************************************************************)
EXTENDS Perms, Json
CONSTANTS Steps
VARIABLES log, phase, gap
vars == <<log, phase, gap>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
RECURSIVE RndPermR(_)
RndPermR(todo) == IF todo = {} THEN << >> ELSE LET x == RandomElement(todo) IN <<x>> \o RndPermR(TLCEval(todo \ {x}))
RndPerm(n) == TLCEval(RndPermR(0..n - 1))
\* (the web site does not list trivial generators)
Shifted(p) == LET n == Len(p) IN IF p = PId(n) THEN [i \in 1..n |-> i % n] ELSE p
Gens(x) == LET n == Pick(<<2, 3, 4, 4, 5, 9, 10, 12>>) IN TLCEval([i \in 1..Pick(<<0, 1, 1, 2, 2, 3>>) |-> IF gap THEN RndPerm(n) ELSE Shifted(RndPerm(n))])
Proc == \E g \in {Pick(<<"4.12.1", "4.12.1", "4.11.0", "", "", "3.4.4">>)} :
    /\ log' = Append(log, [op |-> "proc", gap |-> g, guava |-> Rnd(1..5) > 1, wedderga |-> Rnd(1..5) > 1,
                              user |-> Pick(<<"n", "N", "no", "y", "Y", "", " y ", "n ">>), git |-> Rnd(1..4) > 1])
    /\ gap' = (g \in {"4.12.1", "4.11.0"})
Fault(x) == Pick(<<"", "", "", "", "stderr", "garbage", "trunc", "empty">>)
Web(x) == Pick(<<"up", "up", "up", "up", "down", "http", "page-down", "missing", "no-generators">>)
SmallOrders == <<2, 3, 4, 8, 60, 61, 100>>
Name(a) == CASE a <= 5 -> [order |-> Pick(SmallOrders), index |-> Rnd(1..3), form |-> "small", known |-> 0]
             [] a = 6 -> [order |-> Pick(SmallOrders), index |-> Rnd(1..2), form |-> Pick(<<"quotient", "power", "prefixed">>), known |-> 0]
             [] a \in 7..8 -> [order |-> 0, index |-> 0, form |-> "known", known |-> Rnd(1..4)]
             [] OTHER -> [order |-> Rnd(2..4), index |-> 0, form |-> "symmetric", known |-> 0]
W(x) == [fault |-> Fault(0), web |-> Web(0), pad |-> Rnd(1..2) = 1, mut |-> Rnd(1..3) = 1, spaces |-> Rnd(1..3) = 1]
GensOf == \E a \in {Rnd(1..10)} : \E nm \in {Name(a)} : \E gs \in {Gens(Len(log))} :
    log' = Append(log, [op |-> "gens", name |-> nm, how |-> Pick(<<"raw", "raw", "group">>), gens |-> gs, w |-> W(Len(log))])
Number == log' = Append(log, [op |-> "number", order |-> Pick(SmallOrders), num |-> Rnd(1..12), w |-> W(Len(log))])
Structure == log' = Append(log, [op |-> "structure", order |-> Pick(SmallOrders), index |-> Rnd(1..2), text |-> Pick(<<"C2", "C4 x C2", "D8", "(C3 x C3) : C2", "Q8">>), how |-> Rnd(1..2), w |-> W(Len(log))])
Small == \E gs \in {Gens(Len(log))} : \E o \in {Pick(<<1>> \o SmallOrders)} :
    log' = Append(log, [op |-> "small", order |-> o, index |-> Rnd(1..3), num |-> IF o = 1 THEN 1 ELSE Rnd(1..4), gens |-> gs,
                        w |-> [W(Len(log)) EXCEPT !.fault = Pick(<<"", "", "", "stderr">>), !.web = Pick(<<"up", "up", "down", "page-down">>)]])
Code == \E q \in {Pick(<<2, 2, 3, 5, 4, 9, 27>>)} : \E n \in {Rnd(1..5)} : \E r \in {Rnd(1..3)} :
    log' = Append(log, [op |-> "code", ix |-> Rnd(1..4), q |-> q, checks |-> TLCEval([i \in 1..r |-> TLCEval([j \in 1..n |-> Rnd(0..(CASE q \in {4} -> 1 [] q \in {9, 27} -> 2 [] OTHER -> q - 1))])]),
                        how |-> Pick(<<"raw", "code">>), w |-> W(Len(log))])
\* terms <<element, p^k, m>> of distinct elements
SubDeg(q) == {k \in 1..PDeg(q) : PDeg(q) % k = 0}
Term(q, e) == LET k == Rnd(SubDeg(q)) IN <<e, k, Rnd(0..Pow(PChar(q), k) - 2)>>
Member(q, n) == LET size == Rnd(1..IF n < 4 THEN n ELSE 4) ps == RndPerm(n) IN TLCEval([i \in 1..size |-> Term(q, ps[i])])
Idem == \E q \in {Pick(<<2, 3, 4, 5, 7, 8, 9, 16, 16>>)} : \E n \in {Rnd({3, 5, 7, 10, 11, 12} \ {m \in 1..12 : m % PChar(q) = 0})} : \E k \in {Rnd(1..3)} :
    \E b \in {IF n > 5 THEN 0 ELSE Rnd({0, 2, 3} \ {PChar(q)})} :
    log' = Append(log, [op |-> "idem", q |-> q, n |-> n, b |-> b, members |-> TLCEval([i \in 1..k |-> Member(q, IF b = 0 THEN n ELSE n * b)]), how |-> Pick(<<"raw", "ring">>), w |-> W(Len(log))])
Init == log = << >> /\ phase = 0 /\ gap = FALSE
Next == \/ /\ phase \in 0..Steps - 1 /\ phase' = phase + 1
           /\ \E a \in {Rnd(1..14)} :
              IF phase = 0 \/ a = 1 THEN Proc
              ELSE /\ UNCHANGED gap
                   /\ IF a <= 6 THEN GensOf ELSE IF a = 7 THEN Number ELSE IF a = 8 THEN Structure ELSE IF a = 9 THEN Small ELSE IF a <= 11 THEN Code ELSE Idem
        \/ phase = Steps /\ phase' = Steps + 1 /\ PrintT(ToJson(log)) /\ UNCHANGED <<log, gap>>
Spec == Init /\ [][Next]_vars
===============================================================================
