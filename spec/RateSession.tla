------------------------------- MODULE RateSession -------------------------------
(***************************************************************************)
(* Logical error rates: open an estimate for a classical or CSS code, with *)
(* a budget of samples, a largest physical error rate, a Pauli bias and    *)
(* decoders; then ask for logical error rates at rational physical rates,  *)
(* below, at and above the declared maximum.  "exact" steps use a perfect  *)
(* code, for which the rate is known no matter which errors are sampled.   *)
(***************************************************************************)
EXTENDS GF, Json
CONSTANTS Steps, MaxSamples
VARIABLES log, opened, phase
vars == <<log, opened, phase>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Rates == << <<0, 1>>, <<1, 10>>, <<1, 5>>, <<1, 4>>, <<3, 10>>, <<1, 3>>, <<1, 2>>, <<3, 4>>, <<9, 10>>, <<1, 1>> >>
Coarse == << <<0, 1>>, <<1, 4>>, <<1, 3>>, <<1, 2>>, <<2, 3>>, <<3, 4>>, <<1, 1>> >>
Top == Rates[Rnd(2..Len(Rates))]
Below(p, t) == p[1] * t[2] <= t[1] * p[2]
Times(x) == TLCEval([i \in 1..Rnd(1..4) |-> IF Rnd(1..6) = 1 THEN x ELSE Pick(Rates)])
RandRow(q, n, sparse) == TLCEval([j \in 1..n |-> IF sparse /\ Rnd(1..2) = 1 THEN 0 ELSE Rnd(0..q-1)])
Comb(q, B, n) == FoldLeft(LAMBDA acc, i : VAxpy(q, Rnd(0..q-1), B[i], acc), ZeroVec(n), Idx[Len(B)])
RandMat(q, r, n) == TLCEval([i \in 1..r |-> RandRow(q, n, TRUE)])
Spread(q, B, r, n) == IF B = << >> THEN << ZeroVec(n) >> ELSE TLCEval([i \in 1..r |-> Comb(q, B, n)])
Steane == << <<1, 0, 1, 0, 1, 0, 1>>, <<0, 1, 1, 0, 0, 1, 1>>, <<0, 0, 0, 1, 1, 1, 1>> >>
Bias == Pick(<< << >>, << >>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>, <<30, 1, 1>>, <<1, 30, 1>>, <<1, 1, 30>>, <<2, 3, 4>> >>)
Num(x) == IF Rnd(1..3) = 1 THEN MaxSamples ELSE Pick(<<1, 2, 3, 5, 10, 20, 40, 60>>)
Open(kind, q, h, hx, hz, bias) == [op |-> "open", kind |-> kind, q |-> q, h |-> h, hx |-> hx, hz |-> hz, num |-> Num(0), top |-> Top, bias |-> bias,
        dx |-> Pick(<<"leaders", "leaders", "twisted", "library", "perfect">>), dz |-> Pick(<<"leaders", "perfect", "twisted", "library", "perfect">>),
        lib |-> Rnd(0..2), known |-> Rnd(1..3) = 1, seed |-> Rnd(0..99999)]
Classical == \E q \in {Pick(<<2, 2, 2, 3, 4, 5>>)} : \E n \in {IF q = 2 THEN Rnd(1..7) ELSE IF q = 3 THEN Rnd(1..5) ELSE Rnd(1..4)} : \E h \in {RandMat(q, Rnd(1..n), n)} :
    log' = Append(log, Open("classical", q, h, << >>, << >>, << >>))
CSS == \E q \in {Pick(<<2, 2, 2, 2, 3, 4>>)} : \E n \in {IF q = 2 THEN Rnd(2..6) ELSE Rnd(2..4)} : \E hx \in {RandMat(q, Rnd(1..2), n)} :
    \E hz \in {IF Rnd(1..4) = 1 THEN RandMat(q, Rnd(1..2), n) ELSE Spread(q, NullSpace(q, hx, n), Rnd(1..3), n)} :
    log' = Append(log, Open("css", q, << >>, hx, hz, Bias))
Ask == \E h \in {Rnd(1..opened)} : \E ps \in {Times(<<0, 1>>)} :
    log' = Append(log, [op |-> "rate", h |-> h, ps |-> ps, many |-> Len(ps) > 1 \/ Rnd(1..2) = 1])
Exact == \E name \in {Pick(<<"rep", "rep", "hamming">>)} : \E r \in {IF name = "rep" THEN Pick(<<1, 3, 5, 7>>) ELSE Rnd(2..3)} : \E top \in {Top} :
    log' = Append(log, [op |-> "exact", name |-> name, r |-> r, how |-> IF r = 1 THEN "classical" ELSE Pick(<<"classical", "quantum">>), lib |-> Rnd(0..2), num |-> Num(0), top |-> top, bias |-> Rnd(1..3),
                        ps |-> TLCEval(SelectSeq([i \in 1..3 |-> Pick(Rates)] \o << <<0, 1>>, top >>, LAMBDA p : Below(p, top))), seed |-> Rnd(0..99999)])
Init == log = << >> /\ opened = 0 /\ phase = 0
Next == \/ /\ phase \in 0..Steps - 1 /\ phase' = phase + 1
           /\ \E a \in {Rnd(1..10)} :
              IF opened = 0 \/ a <= 3 THEN opened' = opened + 1 /\ (IF a % 2 = 0 THEN Classical ELSE CSS) ELSE opened' = opened /\ (IF a <= 9 THEN Ask ELSE Exact)
        \/ phase = Steps /\ phase' = Steps + 1 /\ PrintT(ToJson(log)) /\ UNCHANGED <<log, opened>>
Spec == Init /\ [][Next]_vars
===============================================================================
