------------------------------ MODULE CacheSession ------------------------------
(***************************************************************************)
(* Schedules of processes that call memoized functions.  A process stops   *)
(* before each access of the store and inside the function being memoized; *)
(* the schedule says which process moves next, and what befalls it there:  *)
(* it goes on, the function raises, or the process dies.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps, Procs
VARIABLES log, phase, seen, on
vars == <<log, phase, seen, on>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
\* argument lists, grouped so that neighbours are easy to confuse
Args == << <<"(1,)", "{}">>, <<"(True,)", "{}">>, <<"(1.0,)", "{}">>, <<"('1',)", "{}">>, <<"(b'1',)", "{}">>, <<"((1,),)", "{}">>, <<"(1, 2)", "{}">>, <<"((1, 2),)", "{}">>, <<"(2, 1)", "{}">>, <<"(12,)", "{}">>,
           <<"(('x', 1),)", "{}">>, <<"()", "{'x': 1}">>, <<"('x', 1)", "{}">>, <<"()", "{'x': True}">>, <<"((), ('x', 1))", "{}">>, <<"((), (('x', 1),))", "{}">>, <<"()", "{'y': 1}">>, <<"()", "{'x': 1, 'y': 2}">>, <<"()", "{'y': 2, 'x': 1}">>, <<"(('x', 1), ('y', 2))", "{}">>, <<"()", "{'x': 2, 'y': 1}">>, <<"(1,)", "{'y': 2}">>, <<"(1, ('y', 2))", "{}">>, <<"((1,), (('y', 2),))", "{}">>, <<"(1,)", "{'y': 3}">>, <<"()", "{'x': ('y', 2)}">>, <<"(('x', ('y', 2)),)", "{}">>, <<"()", "{'x': 'y'}">>, <<"('x', 'y')", "{}">>,
           <<"()", "{}">>, <<"((),)", "{}">>, <<"(None,)", "{}">>, <<"(0,)", "{}">>, <<"(False,)", "{}">>, <<"('',)", "{}">>, <<"(-1,)", "{}">>, <<"(-2,)", "{}">>, <<"('None',)", "{}">>,
           <<"('a', 'b')", "{}">>, <<"('ab',)", "{}">>, <<"('a', 'b', 'c')", "{}">>, <<"('A',)", "{}">>, <<"('a',)", "{}">>, <<"('a ',)", "{}">>, <<"('b', 'a')", "{}">>, <<"(2305843009213693951,)", "{}">>, <<"(2305843009213693950,)", "{}">>, <<"(((0, 1), (2, 3)), 5)", "{}">>, <<"(((0, 1), (2, 3), 5),)", "{}">>, <<"(((0, 1), (2, 3)), 6)", "{}">>, <<"('one', 'x')", "{}">>, <<"(1.5,)", "{}">>, <<"(float('inf'),)", "{}">>, <<"()", "{'args': 1}">>, <<"(('args', 1),)", "{}">>, <<"()", "{'self': 1}">>, <<"((1,), ())", "{}">> >>
\* two parameters, the second with a default: keys computed by a key function
KArgs == << <<"(1,)", "{}">>, <<"(1, 0)", "{}">>, <<"(1,)", "{'y': 0}">>, <<"()", "{'x': 1, 'y': 0}">>, <<"(1, 2)", "{}">>, <<"(2, 1)", "{}">>, <<"()", "{'y': 1, 'x': 2}">>, <<"(0,)", "{}">>, <<"('ab',)", "{}">> >>
Fns == <<"a", "a", "a", "b", "c", "e", "k", "k0">>
Kinds == <<"str", "str", "str", "str", "str", "str", "str", "list", "list", "none", "zero", "false", "emptylist", "emptystr", "emptytuple", "tuple", "array", "big">>
Call(f) == LET near == Rnd(1..2) = 1 IN [fn |-> f, a |-> IF f \in {"k", "k0"} THEN Pick(KArgs) ELSE IF near /\ seen > 0 THEN Args[((seen - 1 + Rnd(0..4)) % Len(Args)) + 1] ELSE Pick(Args)]
Earlier == LET cs == SelectSeq(log, LAMBDA e : e.op = "call") IN Pick(cs)
\* the same function with arguments that are easy to confuse with those of an earlier call
Twin(c) == IF c.fn \in {"k", "k0"} THEN [c EXCEPT !.a = Pick(KArgs)]
           ELSE LET i == CHOOSE i \in 1..Len(Args) : Args[i] = c.a IN [c EXCEPT !.a = Args[((i - 1 + Pick(<<-4, -3, -2, -1, -1, 1, 1, 2, 3, 4>>) + Len(Args)) % Len(Args)) + 1]]
NewCall == \E p \in {Rnd(1..Procs)} : \E c \in {LET w == Rnd(1..9) IN IF seen = 0 \/ w = 1 THEN Call(Pick(Fns)) ELSE IF w <= 4 THEN Earlier ELSE Twin(Earlier)} :
    log' = Append(log, [op |-> "call", p |-> p, fn |-> c.fn, a |-> c.a, mut |-> Rnd(BOOLEAN)]) /\ seen' = IF seen = 0 THEN Rnd(1..Len(Args)) ELSE seen
Step == \E p \in {Rnd(1..Procs)} : log' = Append(log, [op |-> "step", p |-> p, out |-> Pick(<<"go", "go", "go", "go", "raise">>)]) /\ UNCHANGED seen
Run == \E p \in {Rnd(1..Procs)} : log' = Append(log, [op |-> "run", p |-> p, out |-> Pick(<<"go", "go", "go", "go", "go", "raise", "die-storing">>)]) /\ UNCHANGED seen
Die == \E p \in {Rnd(1..Procs)} : log' = Append(log, [op |-> "die", p |-> p]) /\ UNCHANGED seen
Evict == \E f \in {Pick(<<"a", "b", "c", "e", "k", "k0">>)} : log' = Append(log, [op |-> "evict", fn |-> f]) /\ UNCHANGED seen
\* what each function returns (by kind), and whether memoization is disabled
Setup == \E k \in {TLCEval([i \in 1..6 |-> Pick(Kinds)])} : \E off \in {Rnd(1..12) = 1} : log' = <<[op |-> "setup", kinds |-> k, off |-> off]>> /\ UNCHANGED seen
Do(k) == CASE k = "call" -> NewCall [] k = "step" -> Step [] k = "run" -> Run [] k = "die" -> Die [] k = "evict" -> Evict
Mix == <<"call", "call", "call", "call", "call", "call", "call", "call", "call", "step", "step", "step", "step", "step", "step", "run", "run", "run", "run", "run", "run", "run", "run", "run", "run", "run", "die", "die", "evict", "evict">>
Init == log = << >> /\ phase = 0 /\ seen = 0 /\ on = TRUE
Next == \/ phase = 0 /\ phase' = 1 /\ Setup /\ UNCHANGED on
        \/ phase \in 1..Steps /\ phase' = phase + 1 /\ UNCHANGED on /\ \E k \in {Pick(Mix)} : Do(k)
        \/ phase = Steps + 1 /\ phase' = Steps + 2 /\ PrintT(ToJson(log)) /\ UNCHANGED <<log, seen, on>>
Spec == Init /\ [][Next]_vars
===============================================================================
