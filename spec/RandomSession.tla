------------------------------ MODULE RandomSession ------------------------------
(***************************************************************************)
(* Histories of randomised constructions.  Between them, the global random *)
(* states are disturbed; every history is run by two processes, which are  *)
(* disturbed differently.  Seeds come from a small pool, so that the same  *)
(* request comes back within a history, too.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps
VARIABLES log, phase, ncode, ncss, ngrp
vars == <<log, phase, ncode, ncss, ngrp>>
Rnd(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Qs == <<2, 2, 2, 2, 3, 3, 4, 5, 7, 8, 9, 11, 16>>
\* -1 stands for "no seed"
Seed == IF Rnd(1..6) = 1 THEN -1 ELSE Pick(<<0, 0, 1, 2, 3, 2147483647, 12345, (Rnd(0..46000) * Rnd(0..46000)), Rnd(0..20)>>)
Keep == UNCHANGED <<ncode, ncss, ngrp>>
Log(e) == log' = Append(log, e)
Scramble == Log([op |-> "scramble", seed |-> Pick(<<0, 1, 2, 2147483647, (Rnd(0..46000) * Rnd(0..46000))>>)]) /\ Keep
Array == \E q \in {Pick(Qs)} : Log([op |-> "array", q |-> q, shape |-> Pick(<< <<3>>, <<6>>, <<2, 3>>, <<3, 2>>, <<4, 4>>, <<1>> >>), cond |-> Pick(<<"none", "none", "nonzero", "zerosum", "first", "rows">>), seed |-> Seed]) /\ Keep
Code == \E q \in {Pick(Qs)} : \E n \in {Rnd(1..6)} : \E c \in {Rnd(1..5)} :
    Log([op |-> "code", q |-> q, n |-> n, checks |-> c, seed |-> Seed]) /\ ncode' = ncode + 1 /\ UNCHANGED <<ncss, ngrp>>
Word == IF ncode = 0 THEN Code ELSE \E o \in {Rnd(1..ncode)} : Log([op |-> "word", o |-> o, seed |-> Seed]) /\ Keep
\* a CSS code built from the random codes of the history, or a named one
Css == \E how \in {Pick(<<"hgp", "hgp", "shp", "surface", "toric", "steane", "iceberg", "css", "bacon">>)} :
    IF ncode = 0 /\ how \in {"hgp", "shp", "css"} THEN Code
    ELSE Log([op |-> "css", how |-> how, a |-> Rnd(1..(ncode + 1)), b |-> Rnd(1..(ncode + 1)), q |-> Pick(<<2, 2, 3, 4, 5>>)]) /\ ncss' = ncss + 1 /\ UNCHANGED <<ncode, ngrp>>
Lop == IF ncss = 0 THEN Css ELSE \E o \in {Rnd(1..ncss)} : Log([op |-> "lop", o |-> o, pauli |-> Pick(<<"x", "z">>), nontrivial |-> Rnd(1..3) > 1, seed |-> Seed, ask |-> Rnd(BOOLEAN)]) /\ Keep
Grp == Log([op |-> "grp", how |-> Pick(<<"cyclic", "cyclic", "dihedral", "symmetric", "alternating", "quaternion", "product", "trivial", "abelian", "table">>), n |-> Rnd(1..8), m |-> Rnd(1..4)]) /\ ngrp' = ngrp + 1 /\ UNCHANGED <<ncode, ncss>>
Member == IF ngrp = 0 THEN Grp ELSE \E o \in {Rnd(1..ngrp)} : Log([op |-> "member", o |-> o, seed |-> Seed]) /\ Keep
Subset == IF ngrp = 0 THEN Grp ELSE \E o \in {Rnd(1..ngrp)} : Log([op |-> "subset", o |-> o, size |-> Rnd(0..9), noid |-> Rnd(BOOLEAN), seed |-> Seed]) /\ Keep
\* consume and reseed the global random states
Disturb == Log([op |-> "disturb", x |-> Rnd(0..1000)]) /\ Keep
\* an earlier request, again
Again == \E i \in {Rnd(1..Len(log))} : IF log[i].op \in {"array", "code", "word", "lop", "member", "subset", "scramble"} /\ log[i].op # "code" THEN Log(log[i]) /\ Keep ELSE Disturb
Do(k) == CASE k = "scramble" -> Scramble [] k = "array" -> Array [] k = "code" -> Code [] k = "word" -> Word [] k = "css" -> Css [] k = "lop" -> Lop
           [] k = "grp" -> Grp [] k = "member" -> Member [] k = "subset" -> Subset [] k = "disturb" -> Disturb [] k = "again" -> Again
Kinds == <<"scramble", "array", "array", "code", "code", "code", "word", "word", "css", "css", "lop", "lop", "lop", "lop", "grp", "grp", "member", "subset", "subset", "subset", "disturb", "disturb", "again", "again", "again", "again">>
Init == log = << >> /\ phase = 0 /\ ncode = 0 /\ ncss = 0 /\ ngrp = 0
Next == \/ phase = 0 /\ phase' = 1 /\ Disturb
        \/ phase \in 1..Steps /\ phase' = phase + 1 /\ \E k \in {Pick(Kinds)} : Do(k)
        \/ phase = Steps + 1 /\ phase' = Steps + 2 /\ PrintT(ToJson(log)) /\ UNCHANGED <<log, ncode, ncss, ngrp>>
Spec == Init /\ [][Next]_vars
===============================================================================
