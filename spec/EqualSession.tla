------------------------------ MODULE EqualSession ------------------------------
(***************************************************************************)
(* Families of quantum codes that are equal, equivalent, or nearly so: the *)
(* same checks in another order, scaled, combined, repeated or padded; one *)
(* entry changed; the same numbers over another field; CSS codes written   *)
(* as such or as general codes; sectors exchanged.  Questions compare      *)
(* members of a family with each other.                                    *)
(***************************************************************************)
EXTENDS GF, Json
CONSTANTS Steps
VARIABLES log, phase, pool
vars == <<log, phase, pool>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Qs == <<2, 2, 2, 3, 3, 4, 5>>
RVec(q, w) == TLCEval([i \in 1..w |-> IF Rnd(1..2) = 1 THEN 0 ELSE Rnd(0..q-1)])
RMat(q, m, w) == TLCEval([i \in 1..m |-> RVec(q, w)])
Log(e) == log' = Append(log, e)
Add1(e, c) == Log(e) /\ pool' = Append(pool, c)
Whole(c) == IF c.css THEN [i \in 1..Len(c.X) |-> c.X[i] \o ZeroVec(c.n)] \o [i \in 1..Len(c.Z) |-> ZeroVec(c.n) \o c.Z[i]] ELSE c.X
Make(c) == Add1([op |-> "make", q |-> c.q, n |-> c.n, css |-> c.css, X |-> c.X, Z |-> c.Z, how |-> Pick(<<"array", "list", "field">>)], c)
General == \E q \in {Pick(Qs)} : \E n \in {Rnd(1..3)} : \E m \in {Rnd(1..3)} : \E M \in {RMat(q, m, 2 * n)} : Make([q |-> q, n |-> n, css |-> FALSE, X |-> M, Z |-> << >>])
Css == \E q \in {Pick(Qs)} : \E n \in {Rnd(1..4)} : \E X \in {RMat(q, Rnd(1..2), n)} : \E Z \in {IF Rnd(1..4) = 1 THEN X ELSE RMat(q, Rnd(1..2), n)} : Make([q |-> q, n |-> n, css |-> TRUE, X |-> X, Z |-> Z])
\* row operations
Twist(q, M) == IF M = << >> THEN M ELSE
    LET i == Rnd(1..Len(M)) j == Rnd(1..Len(M)) c == Rnd(1..q-1) w == Len(M[1]) kind == Rnd(1..6)
    IN  CASE kind = 1 -> [M EXCEPT ![i] = M[j], ![j] = M[i]]
          [] kind = 2 -> [M EXCEPT ![i] = VScale(q, c, M[i])]
          [] kind = 3 /\ i # j -> [M EXCEPT ![i] = VAxpy(q, c, M[j], M[i])]
          [] kind = 4 -> Append(M, VScale(q, c, M[i]))
          [] kind = 5 -> <<ZeroVec(w)>> \o M
          [] OTHER -> RREF(q, M, w)
\* a change that need not preserve the row space
Break(q, M) == IF M = << >> THEN M ELSE
    LET i == Rnd(1..Len(M)) w == Len(M[1]) j == Rnd(1..w) kind == Rnd(1..3)
    IN  CASE kind = 1 -> [M EXCEPT ![i] = [M[i] EXCEPT ![j] = Add(q, M[i][j], Rnd(1..q-1))]]
          [] kind = 2 -> IF Len(M) > 1 THEN SubSeq(M, 1, Len(M) - 1) ELSE M
          [] OTHER -> Append(M, RVec(q, w))
Fits(q, M) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : M[i][j] < q
Vary == \E o \in {Rnd(1..Len(pool))} : \E c \in {pool[o]} : \E side \in {Rnd(1..3)} :
    \E k \in {Pick(<<"twist", "twist", "twist", "break", "break", "field", "general", "swap", "same", "pad">>)} :
    CASE k = "twist" -> \E X \in {IF side # 2 THEN Twist(c.q, Twist(c.q, c.X)) ELSE c.X} : \E Z \in {IF side # 1 THEN Twist(c.q, c.Z) ELSE c.Z} : Make([c EXCEPT !.X = X, !.Z = Z])
      [] k = "break" -> \E X \in {IF side # 2 \/ ~c.css THEN Break(c.q, c.X) ELSE c.X} : \E Z \in {IF side # 1 THEN Break(c.q, c.Z) ELSE c.Z} : Make([c EXCEPT !.X = X, !.Z = Z])
      [] k = "field" -> \E q \in {Pick(<<2, 3, 4, 5>>)} : IF Fits(q, c.X) /\ Fits(q, c.Z) THEN Make([c EXCEPT !.q = q]) ELSE Make(c)
      [] k = "general" -> Make([q |-> c.q, n |-> c.n, css |-> FALSE, X |-> Whole(c), Z |-> << >>])
      [] k = "swap" -> IF c.css THEN Make([c EXCEPT !.X = c.Z, !.Z = c.X]) ELSE Make(c)
      [] k = "pad" -> IF c.css THEN Make([c EXCEPT !.n = c.n + 1, !.X = [i \in 1..Len(c.X) |-> Append(c.X[i], 0)], !.Z = [i \in 1..Len(c.Z) |-> Append(c.Z[i], 0)]]) ELSE Make(c)
      [] OTHER -> Make(c)
\* the library's own derivations of a code
Derive == \E o \in {Rnd(1..Len(pool))} : Add1([op |-> "derive", o |-> o, how |-> Pick(<<"copy", "canonical", "canonical", "general", "conj", "strings">>)], pool[o])
\* a named code and its plain presentation
Named == Add1([op |-> "named", name |-> Pick(<<"steane", "five", "iceberg", "surface", "toric", "bacon", "c6", "hgp">>), plain |-> Rnd(BOOLEAN), q |-> Pick(<<2, 3>>)], [q |-> 2, n |-> 1, css |-> FALSE, X |-> << <<0, 0>> >>, Z |-> << >>])
Compare == \E a \in {Rnd(1..Len(pool))} : \E b \in {Rnd(1..Len(pool))} : Log([op |-> "compare", a |-> a, b |-> b, ask |-> Pick(<<"none", "none", "rank", "logical", "canonical">>)]) /\ UNCHANGED pool
Alien == \E a \in {Rnd(1..Len(pool))} : Log([op |-> "alien", a |-> a, what |-> Pick(<<"none", "int", "str", "list", "classical", "group">>)]) /\ UNCHANGED pool
Val == <<Rnd(-1..3), Rnd(-1..3)>>
Operators == \E u \in {Val} : \E v \in {IF Rnd(1..2) = 1 THEN u ELSE Val} : Log([op |-> "operators", u |-> u, v |-> v, kind |-> Pick(<<"qudit", "node", "pauli", "member", "member">>)]) /\ UNCHANGED pool
Do(k) == CASE k = "general" -> General [] k = "css" -> Css [] k = "vary" -> Vary [] k = "derive" -> Derive [] k = "named" -> Named [] k = "compare" -> Compare [] k = "alien" -> Alien [] k = "operators" -> Operators
Kinds == <<"general", "css", "vary", "vary", "vary", "vary", "vary", "derive", "derive", "named", "compare", "compare", "compare", "compare", "compare", "compare", "compare", "compare", "compare", "alien", "operators">>
Init == log = << >> /\ phase = 0 /\ pool = << >>
Next == \/ phase = 0 /\ phase' = 1 /\ \E b \in {Rnd(BOOLEAN)} : IF b THEN Css ELSE General
        \/ phase \in 1..Steps /\ phase' = phase + 1 /\ \E k \in {Pick(Kinds)} : Do(k)
        \/ phase = Steps + 1 /\ phase' = Steps + 2 /\ PrintT(ToJson(log)) /\ UNCHANGED <<log, pool>>
Spec == Init /\ [][Next]_vars
===============================================================================
