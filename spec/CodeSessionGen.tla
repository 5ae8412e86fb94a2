---- MODULE CodeSessionGen ----
(* Parameters for generating sessions; NAME_Kinds lists the mix of actions used for a property. *)
EXTENDS CodeSession
AllKinds == <<"new", "newcss", "logical", "logical", "stab", "gauge", "dims", "dist", "dist", "conj", "deform",
              "sform", "deform", "dual", "canon", "stack", "concat", "concat", "setl", "reduce", "trip", "distb">>
KindsC01 == <<"new", "newcss", "newcss", "logical", "logical", "logical", "stab", "stab", "gauge", "gauge", "dual",
              "setl", "setl", "reduce", "reduce", "sform", "sform", "conj", "deform", "stack", "concat", "canon">>
KindsC02 == <<"new", "newcss", "dims", "dims", "dims", "dims", "logical", "stab", "gauge", "canon", "canon",
              "conj", "deform", "dual", "dual", "stack", "concat", "setl">>
KindsC03 == <<"new", "newcss", "newcss", "dist", "dist", "dist", "dist", "distb", "distb", "distb", "logical", "setl", "reduce",
              "conj", "deform", "dual", "stack", "concat", "canon">>
KindsC05 == <<"new", "newcss", "newcss", "concat", "concat", "concat", "concat", "stack", "stack", "stack", "logical", "logical",
              "dims", "gauge", "stab", "setl", "conj", "dual", "dist">>
KindsC06 == <<"new", "newcss", "conj", "conj", "conj", "deform", "deform", "deform", "deform", "logical", "logical",
              "setl", "gauge", "stab", "dims", "dist">>
KindsC15 == <<"new", "newcss", "trip", "trip", "trip", "trip", "conj", "deform", "stack", "concat", "dual", "canon">>

\* small codes over many fields
SmallQs == <<2, 2, 2, 3, 3, 4, 5>>
SmallN == [q \in {2, 3, 4, 5} |-> CASE q = 2 -> 6 [] q = 3 -> 4 [] q = 4 -> 3 [] q = 5 -> 3]
SmallDer == [q \in {2, 3, 4, 5} |-> CASE q = 2 -> 14 [] q = 3 -> 10 [] q = 4 -> 7 [] q = 5 -> 7]
\* longer qubit codes
WideQs == <<2>>
WideN == [q \in {2} |-> 9]
WideDer == [q \in {2} |-> 24]
\* larger fields
BigQs == <<4, 5, 7, 8, 9, 3, 11, 16>>
BigN == [q \in {3, 4, 5, 7, 8, 9, 11, 16} |-> IF q > 9 THEN 2 ELSE 3]
BigDer == [q \in {3, 4, 5, 7, 8, 9, 11, 16} |-> IF q > 9 THEN 4 ELSE 6]
====
