------------------------------- MODULE Families -------------------------------
(***************************************************************************)
(* Every member of every named code family, within bounds: each behaviour  *)
(* of this specification is the construction of one code.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Big, Quantum
VARIABLES inst, phase
vars == <<inst, phase>>
B(a, b) == IF Big = 1 THEN b ELSE a
F(name, q, p) == [op |-> "family", fam |-> name, q |-> q, p |-> p]
Qs == {2, 3, 4, 5, 7}
Chains == {F(n, q, <<b>>) : n \in {"repetition", "ring"}, q \in {2, 3, 4, 5, 7, 8, 9}, b \in -1..B(5, 8)}
Hamming == {x \in {F("hamming", q, <<r>>) : q \in {2, 3, 4, 5, 7}, r \in -1..B(4, 5)} : x.p[1] < 1 \/ x.q ^ x.p[1] <= B(60, 130)}
ExtHamming == {F("extended-hamming", 2, <<r>>) : r \in -1..B(4, 6)}
\* Reed-Solomon codes exist for n = q - 1 (the library picks the binary field)
RS == {F("reed-solomon", 2, <<n, k>>) : n \in {3, 7} \cup B({}, {15}), k \in 1..15}
BCH == {F("bch", 2, nk) : nk \in {<<3, 1>>, <<7, 1>>, <<7, 4>>, <<15, 1>>, <<15, 5>>, <<15, 7>>, <<15, 11>>, <<31, 6>>} \cup B({}, {<<31, 1>>, <<31, 11>>, <<31, 16>>, <<31, 21>>, <<31, 26>>})}
       \cup {F("bch", 3, nk) : nk \in {<<2, 1>>, <<8, 3>>, <<8, 6>>, <<8, 1>>}}
       \cup {F("bch", q, <<n, k>>) : q \in {2, 3, 4}, n \in 1..16, k \in {1, 2, 5}}      \* mostly inadmissible
RM == {F("reed-muller", q, <<r, m>>) : q \in {2, 3, 4}, r \in -1..B(4, 5), m \in -1..B(3, 4)} \cup {F("reed-muller", 2, <<r, B(4, 5)>>) : r \in {0, 1, 2, B(4, 5)}}
Simplex == {F("simplex", 2, <<k>>) : k \in -1..8}
Classical == {x \in Chains \cup Hamming \cup ExtHamming \cup RS \cup BCH \cup RM \cup Simplex : x.fam = "reed-solomon" => x.p[2] <= x.p[1]}
---------------------------------------------------------------------------
Fixed == {F(n, 2, << >>) : n \in {"five-qubit", "steane", "c4", "c6"}}
Iceberg == {F("iceberg", 2, <<m, a>>) : m \in -1..B(4, 6), a \in 0..1}
Grids == {F(n, q, <<r, c, rot>>) : n \in {"surface", "toric"}, q \in {2, 3}, r \in 0..B(3, 4), c \in 0..B(3, 4), rot \in 0..1}
         \cup {F(n, 4, <<r, c, rot>>) : n \in {"surface", "toric"}, r \in 2..2, c \in 2..B(2, 3), rot \in 0..1}
         \cup {F("toric", 2, <<r, c, 1>>) : r \in {2, 4}, c \in {2, 4}} \cup {F("toric", 3, <<2, 4, 1>>), F("surface", 2, <<4, 4, 1>>), F("surface", 2, <<3, 4, 1>>), F("surface", 2, <<4, 3, 1>>)}
         \cup {F(n, q, <<s, -1, rot>>) : n \in {"surface", "toric"}, q \in {2, 3}, s \in {2, 3}, rot \in 0..1}       \* only the number of rows
         \cup B({}, {F("surface", 2, <<r, c, 1>>) : r \in {2, 5}, c \in {2, 5}} \cup {F("toric", 2, <<r, c, 1>>) : r \in {2, 6}, c \in {4, 6}})
General == {F("generalized-surface", q, <<s, d, per>>) : q \in {2, 3}, s \in 1..2, d \in 1..3, per \in 0..1} \cup {F("generalized-surface", q, <<3, 2, per>>) : q \in {2, 4}, per \in 0..1}
BaconShor == {F("bacon-shor", q, <<r, c, set>>) : q \in {2, 3}, r \in 0..3, c \in 1..3, set \in 0..1} \cup {F("bacon-shor", 2, <<r, -1, 1>>) : r \in 2..B(3, 4)}
Shyps == {F("shyps", 2, <<a, b>>) : a \in {2}, b \in {-1, 2, 3}} \cup {F("shyps", 2, <<3, 2>>)}
QuantumFams == Fixed \cup Iceberg \cup Grids \cup General \cup BaconShor \cup Shyps
Init == inst \in (IF Quantum = 1 THEN QuantumFams ELSE Classical) /\ phase = 0
Emit == phase = 0 /\ phase' = 1 /\ PrintT(ToJson(<<inst>>)) /\ UNCHANGED inst
Spec == Init /\ [][Emit]_vars
===============================================================================
