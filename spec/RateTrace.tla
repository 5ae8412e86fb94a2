-------------------------------- MODULE RateTrace --------------------------------
(***************************************************************************)
(* What an estimate of logical error rates is: the calls made to decoders  *)
(* while it was opened are the sampled errors and what decoding left of    *)
(* them.  They give, for every weight, a number of samples and of failures *)
(* (a failure is a residual outside the trivial operators), and these      *)
(* numbers alone give the error rate at every physical rate p:             *)
(*    1 - sum_k q_k(p) (1 - failures_k / samples_k)                        *)
(* with q_k(p) the probability of an error of weight k.  Numbers are kept  *)
(* in units of 10^-6.                                                      *)
(***************************************************************************)
EXTENDS GF, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
Start(case) == << >>
Set(s) == {s[i] : i \in 1..Len(s)}
Sum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
---------------------------------------------------------------------------
\* exact probabilities, then six digits by long division
Choose(n, k) == FoldLeft(LAMBDA acc, i : (acc * (n - i + 1)) \div i, 1, Idx[k])
Digit(acc) == [v |-> 10 * acc.v + (10 * acc.r) \div acc.d, r |-> (10 * acc.r) % acc.d, d |-> acc.d]
Micro(a, b) == FoldLeft(LAMBDA acc, i : Digit(acc), [v |-> a \div b, r |-> a % b, d |-> b], Idx[6]).v
Prob(n, p, k) == Micro(Choose(n, k) * (p[1] ^ k) * ((p[2] - p[1]) ^ (n - k)), p[2] ^ n)
Below(p, t) == p[1] * t[2] <= t[1] * p[2]
---------------------------------------------------------------------------
\* samples: <<error seen by the first decoder, by the second, failed>>; << >> for an error that was not seen
Trivial(e, side, r) == IF e.kind = "classical" THEN IsZero(r)
                       ELSE InRowSpace(e.q, RREF(e.q, IF side = "z" THEN e.hz ELSE e.hx, Len(r)), r)
Group(e, calls) == FoldLeft(LAMBDA acc, c :
        LET bad == ~Trivial(e, c[1], c[3]) IN
        IF acc = << >> \/ c[1] = calls[1][1] \/ acc[Len(acc)].two # << >> THEN Append(acc, [one |-> c[2], two |-> << >>, bad |-> bad])
        ELSE [acc EXCEPT ![Len(acc)] = [one |-> @.one, two |-> c[2], bad |-> @.bad \/ bad]], << >>, calls)
Odds(e) == IF e.bias = << >> THEN <<1, 1, 1>> ELSE e.bias              \* of X, Y and Z
\* the odds of Paulis that only the second decoder sees
Hidden(e) == IF e.calls[1][1] = "z" THEN Odds(e)[1] ELSE Odds(e)[3]
Known(e, s) == s.two # << >> \/ Hidden(e) = 0
Sites(s) == {j \in 1..Len(s.one) : s.one[j] # 0 \/ (s.two # << >> /\ s.two[j] # 0)}
\* type of Pauli error at a site: 1, 2, 3 for X, Y, Z
Pauli(e, s, j) == LET z == IF e.calls[1][1] = "z" THEN s.one[j] # 0 ELSE s.two # << >> /\ s.two[j] # 0
                      x == IF e.calls[1][1] = "z" THEN s.two # << >> /\ s.two[j] # 0 ELSE s.one[j] # 0
                  IN  IF x /\ z THEN 2 ELSE IF x THEN 1 ELSE 3
\* whether a Pauli of this type may have occurred: an unseen error may complete it
May(e, s, t) == \/ Odds(e)[t] > 0
                \/ s.two = << >> /\ Odds(e)[2] > 0 /\ t = (IF e.calls[1][1] = "z" THEN 3 ELSE 1)
Size(e) == IF e.kind = "classical" THEN Len(e.h[1]) ELSE Len(e.hx[1])
---------------------------------------------------------------------------
\* how samples are spread over weights
Peak(Q) == CHOOSE k \in 1..Len(Q) : (\A j \in 1..Len(Q) : Q[j] <= Q[k]) /\ \A j \in 1..k-1 : Q[j] < Q[k]
Shape(n, t) == LET Q == TLCEval([k \in 1..n |-> Prob(n, t, k) \div 10]) m == Peak(Q) IN TLCEval([k \in 1..n |-> IF k < m THEN Q[m] ELSE Q[k]])
Abs(x) == IF x < 0 THEN -x ELSE x
SpreadOK(n, t, S) == LET W == Shape(n, t) norm == Sum(W) total == Sum(S) IN \A k \in 1..n : Abs(S[k] * norm - total * W[k]) <= 2 * norm + 20 * total
\* with enough samples everything that can be drawn is drawn; odds against are below 10^-10
CoverOK(e, smp) ==
    LET n == Size(e)
        solid == SelectSeq(smp, LAMBDA s : e.kind = "classical" \/ Known(e, s))
        pairs == (n * (n - 1)) \div 2
        vals == FoldLeft(LAMBDA acc, s : acc + Weight(s.one), 0, smp)
        two == SelectSeq(solid, LAMBDA s : Cardinality(Sites(s)) = 2)
        many == SelectSeq(smp, LAMBDA s : Weight(s.one) > 1)
        pair == SelectSeq(smp, LAMBDA s : Weight(s.one) = 2)
    IN  /\ Len(smp) >= 25 * n => UNION {Sites(smp[i]) : i \in 1..Len(smp)} = 1..n \/ (e.kind # "classical" /\ Len(solid) < 25 * n)
        /\ vals >= 25 * (e.q - 1) => \A v \in 1..e.q-1 : \E i \in 1..Len(smp) : v \in Set(smp[i].one)
        \* the values of errors at different places are independent
        /\ e.q > 2 /\ Len(many) >= 100 => /\ \E i \in 1..Len(many) : Cardinality(Set(many[i].one) \ {0}) > 1
                                         /\ (Len(pair) >= 100 => \E i \in 1..Len(pair) : Cardinality(Set(pair[i].one) \ {0}) = 1)
        /\ Len(two) >= 25 * pairs => {Sites(two[i]) : i \in 1..Len(two)} = {{a, b} : a \in 1..n, b \in 1..n} \ {{a} : a \in 1..n}
BiasOK(e, smp) ==
    LET seen(t) == FoldLeft(LAMBDA acc, s : acc + Cardinality({j \in Sites(s) : Pauli(e, s, j) = t}), 0, smp)
        solid == \A i \in 1..Len(smp) : Known(e, smp[i]) /\ smp[i].two # << >>
        all == TLCEval([t \in 1..3 |-> seen(t)])
    IN  /\ \A i \in 1..Len(smp) : \A j \in Sites(smp[i]) : May(e, smp[i], Pauli(e, smp[i], j))
        /\ solid /\ Sum(all) >= 80 => \A t \in 1..3 : /\ Odds(e)[t] = 30 => \A u \in 1..3 : all[u] <= all[t]
                                                     /\ (Odds(e)[t] > 0 /\ \A u \in 1..3 : Odds(e)[u] <= 4) => all[t] > 0
Opened(e) ==
    LET n == Size(e)
        smp == Group(e, e.calls)
        kn == e.kind = "classical" \/ \A i \in 1..Len(smp) : Known(e, smp[i])
        wt == TLCEval([i \in 1..Len(smp) |-> Cardinality(Sites(smp[i]))])
        cnt(b) == TLCEval([k \in 1..n |-> Cardinality({i \in 1..Len(smp) : wt[i] = k /\ (b => smp[i].bad)})])
    IN  [smp |-> smp, known |-> kn, zero |-> \E i \in 1..Len(smp) : wt[i] = 0 /\ Known(e, smp[i]), S |-> cnt(FALSE), F |-> cnt(TRUE)]
OpenBad(e) ==
    IF e.calls = << >> THEN {"C23.samples-spent"}
    ELSE IF ~(\A i \in 1..Len(e.calls) : e.calls[i][1] \in (IF e.kind = "classical" THEN {"c"} ELSE {"x", "z"}) /\ Len(e.calls[i][2]) = Size(e) /\ Len(e.calls[i][3]) = Size(e)) THEN {"C23.decoders"}
    ELSE LET o == Opened(e) total == Len(o.smp) n == Size(e) IN
        If(total >= e.num /\ total <= 2 * e.num + 4 * n, "C23.samples-spent")
        \cup If(o.known => ~o.zero, "C23.weights")
        \cup If(o.known => SpreadOK(n, e.top, o.S), "C23.allocation")
        \cup If(CoverOK(e, o.smp), "C23.coverage")
        \cup If(e.kind = "classical" \/ BiasOK(e, o.smp), "C23.bias")
        \cup If(e.kind = "classical" \/ total < 40 \/ Hidden(e) = 0 \/ Cardinality({c[1] : c \in Set(e.calls)}) = 2 \/ \A i \in 1..Len(o.smp) : o.smp[i].bad, "C23.undecoded-sector")
---------------------------------------------------------------------------
Rate(h, p) == LET last == CHOOSE k \in 0..h.n : (k = 0 \/ h.S[k] > 0) /\ \A j \in k+1..h.n : h.S[j] = 0 IN
    FoldLeft(LAMBDA acc, k : acc + (IF k > last THEN Prob(h.n, p, k) ELSE IF h.S[k] = 0 THEN 0 ELSE (Prob(h.n, p, k) * h.F[k]) \div h.S[k]), 0, Idx[h.n])
\* variance, in units of 10^-8
Var(h, p) == FoldLeft(LAMBDA acc, k : acc + (IF h.S[k] = 0 THEN 0 ELSE LET y == Prob(h.n, p, k) \div 100 s == h.S[k] IN
        ((((((y * y) \div s) * h.F[k]) \div s) * (s - h.F[k])) \div s)), 0, Idx[h.n])
Near(a, b, tol) == Abs(a - b) <= tol
RateBad(s, e) ==
    LET h == s[e.h] IN
    IF \E i \in 1..Len(e.ps) : ~Below(e.ps[i], h.top) THEN If(e.exc = "ValueError", "C23.above-maximum")
    ELSE IF e.exc # "" THEN {"C23.raises"}
    ELSE If(Len(e.vals) = Len(e.ps), "C23.raises") \cup If(e.same, "C23.same-samples") \cup If(e.fresh = 0, "C23.same-samples") \cup If(e.exact0, "C23.zero")
         \cup If(\A i \in 1..Len(e.vals) : e.vals[i] \in 0..1000000 /\ e.errs[i] \in 0..100000000, "C23.range")
         \cup (IF h.known /\ \A k \in 1..h.n : h.S[k] > 0 \/ \A j \in k..h.n : h.S[j] = 0
               THEN If(\A i \in 1..Len(e.vals) : Near(e.vals[i], Rate(h, e.ps[i]), 3 * h.n + 3), "C23.rate")
                    \cup If(\A i \in 1..Len(e.vals) : LET v == Var(h, e.ps[i]) IN Near(e.errs[i], v, 1500 + v \div 200), "C23.uncertainty")
               ELSE {})
---------------------------------------------------------------------------
\* perfect codes: errors of at most t bits are corrected, and no others
ExactBad(e) ==
    LET n == IF e.name = "rep" THEN e.r ELSE 2 ^ e.r - 1
        t == IF e.name = "rep" THEN (n - 1) \div 2 ELSE 1
        W == Shape(n, e.top)
        \* weights that may have been left without samples
        thin == {k \in 1..t : W[k] * e.num < Sum(W)}
        true(p) == FoldLeft(LAMBDA acc, k : acc + (IF k > t THEN Prob(n, p, k) ELSE 0), 0, Idx[n])
        most(p) == FoldLeft(LAMBDA acc, k : acc + (IF k \in thin THEN Prob(n, p, k) ELSE 0), true(p), Idx[n])
    IN  IF e.exc # "" THEN {"C23.raises"}
        ELSE IF Len(e.vals) # Len(e.ps) THEN {"C23.raises"}
        ELSE If(\A i \in 1..Len(e.ps) : e.vals[i] >= true(e.ps[i]) - 3 * n - 3 /\ e.vals[i] <= most(e.ps[i]) + 3 * n + 3, "C23.exact") \cup If(\A i \in 1..Len(e.ps) : e.errs[i] = 0, "C23.exact")
---------------------------------------------------------------------------
CheckEvent(s, e) ==
    IF e.skip THEN {}
    ELSE CASE e.op = "open" -> IF e.exc # "" THEN {"C23.raises"} ELSE OpenBad(e)
           [] e.op = "rate" -> IF s[e.h].ok THEN RateBad(s, e) ELSE {}
           [] OTHER -> ExactBad(e)
AfterEvent(s, e) ==
    IF e.op # "open" THEN s
    ELSE IF e.skip \/ e.exc # "" \/ OpenBad(e) \cap {"C23.decoders", "C23.samples-spent"} # {} THEN Append(s, [ok |-> FALSE])
    ELSE LET o == Opened(e) IN Append(s, [ok |-> TRUE, known |-> o.known, n |-> Size(e), S |-> o.S, F |-> o.F, top |-> e.top])
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
===============================================================================
