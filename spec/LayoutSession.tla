------------------------------ MODULE LayoutSession ------------------------------
(***************************************************************************)
(* Bivariate bicycle codes: orders of the two cyclic groups, which symbol  *)
(* has which order, and two polynomials, given as <<coefficient, exponents *)
(* of x and y>> with terms that differ modulo the orders.                  *)
(***************************************************************************)
EXTENDS GF, Json
CONSTANTS Steps, MaxCells
VARIABLES log, phase
vars == <<log, phase>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Coeff(q) == IF Prime(q) /\ Rnd(1..2) = 1 THEN Rnd(1..q-1) ELSE 1
\* exponents of x and y, within or beyond the orders (ox, oy)
Exps(ox, oy, wide) == IF wide THEN <<Rnd(-ox..2 * ox), Rnd(-oy..2 * oy)>> ELSE <<Rnd(0..ox - 1), Rnd(0..oy - 1)>>
Same(e, f, ox, oy) == (e[1] - f[1]) % ox = 0 /\ (e[2] - f[2]) % oy = 0
Distinct(t, ox, oy) == LET ix == SelectSeq(Idx[Len(t)], LAMBDA i : \A j \in 1..i-1 : ~Same(t[j][2], t[i][2], ox, oy)) IN TLCEval([k \in 1..Len(ix) |-> t[ix[k]]])
Poly(q, n, ox, oy, wide) == Distinct(TLCEval([i \in 1..n |-> <<Coeff(q), Exps(ox, oy, wide)>>]), ox, oy)
\* polynomials of a code that certainly has a toric layout: 1 + x + .. and 1 + y + .., shifted
Shift(t, s) == TLCEval([i \in 1..Len(t) |-> <<t[i][1], <<t[i][2][1] + s[1], t[i][2][2] + s[2]>>>>])
Toric(q, n, ox, oy, d) == Distinct(Shift(<< <<Coeff(q), <<0, 0>>>>, <<Coeff(q), d>> >> \o Poly(q, n, ox, oy, FALSE), <<Rnd(0..ox - 1), Rnd(0..oy - 1)>>), ox, oy)
Small == {o \in (1..8) \X (1..8) : o[1] * o[2] <= MaxCells}
Orders(x) == IF Rnd(1..4) = 1 THEN Pick(<< <<2, 2>>, <<3, 3>>, <<4, 2>>, <<2, 4>>, <<6, 2>>, <<2, 6>>, <<3, 2>>, <<4, 4>>, <<1, 4>>, <<5, 1>>, <<6, 3>> >>) ELSE Rnd(Small)
Code == \E q \in {Pick(<<2, 2, 2, 3, 3, 4, 5>>)} : \E o \in {Orders(Len(log))} : \E flip \in {Rnd(1..4) = 1} : \E kind \in {Rnd(1..6)} : \E wide \in {Rnd(1..5) = 1} :
    \E pa \in {IF kind <= 3 THEN Toric(q, Rnd(0..2), o[1], o[2], IF flip THEN <<0, 1>> ELSE <<1, 0>>) ELSE Poly(q, Rnd(1..4), o[1], o[2], wide)} :
    \E pb \in {IF kind <= 3 THEN Toric(q, Rnd(0..2), o[1], o[2], IF kind = 1 THEN <<1, 1>> ELSE IF flip THEN <<1, 0>> ELSE <<0, 1>>) ELSE Poly(q, Rnd(1..4), o[1], o[2], wide)} :
    log' = Append(log, [op |-> "layout", q |-> q, ox |-> o[1], oy |-> o[2], how |-> Pick(<<"list", "list", "dict", "dict-reversed", "reported">>), names |-> Pick(<<"xy", "xy", "ab", "yx">>), pa |-> pa, pb |-> pb, ask |-> Rnd(1..2)])
Init == log = << >> /\ phase = 0
Next == \/ phase \in 0..Steps - 1 /\ phase' = phase + 1 /\ Code
        \/ phase = Steps /\ phase' = Steps + 1 /\ PrintT(ToJson(log)) /\ UNCHANGED log
Spec == Init /\ [][Next]_vars
===============================================================================
