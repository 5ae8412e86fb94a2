----------------------------- MODULE CliffordLaws -----------------------------
(* Laws that the model of phased Paulis and Clifford gates must satisfy.  *)
EXTENDS Clifford
VARIABLE c
N == 2
Vs == [1..4 -> 0..1]
Ops1 == {"I", "H", "S", "S_DAG", "Z", "X", "Y", "SQRT_X", "SQRT_X_DAG", "SQRT_Y", "SQRT_Y_DAG", "H_XY", "H_YZ", "C_XYZ", "C_ZYX"}
Ops2 == {"CX", "CZ", "CY", "SWAP", "ISWAP", "ISWAP_DAG"}
AllOps == {[g |-> g, t |-> <<a>>] : g \in Ops1, a \in 1..2} \cup {[g |-> g, t |-> t] : g \in Ops2, t \in {<<1, 2>>, <<2, 1>>}}
Seq1(v) == [i \in 1..4 |-> v[i]]
Init == c \in AllOps \X Vs \X Vs
Spec == Init /\ [][UNCHANGED c]_c
P(s, v) == Phased(N, s, Seq1(v))
\* conjugation is a homomorphism, keeps Hermiticity and commutation
Homo == LET A == P(0, c[2]) B == P(0, c[3]) ops == <<c[1]>> IN
    /\ ImageOf(N, ops, PMul(N, A, B)) = PMul(N, ImageOf(N, ops, A), ImageOf(N, ops, B))
    /\ Hermitian(N, ImageOf(N, ops, A))
    /\ Symp(2, ImageOf(N, ops, A).v, ImageOf(N, ops, B).v, N) = Symp(2, A.v, B.v, N)
    /\ c[1].g \in {"SQRT_Y", "SQRT_Y_DAG", "H_XY", "H_YZ"} \/ ImageOf(N, ops, A).v = ApplyGate(A.v, N, c[1])
\* named gates do to X, Y and Z what their names say
X1 == [s |-> 0, v |-> <<1, 0, 0, 0>>]
Z1 == [s |-> 0, v |-> <<0, 0, 1, 0>>]
Y1 == [s |-> 0, v |-> <<1, 0, 1, 0>>]
Neg1(A) == [A EXCEPT !.s = 1]
Img(g, A) == SignedCircuit(N, <<[g |-> g, t |-> <<1>>]>>, A)
Names ==
    /\ Img("X", X1) = X1 /\ Img("X", Z1) = Neg1(Z1) /\ Img("Y", X1) = Neg1(X1) /\ Img("Y", Z1) = Neg1(Z1) /\ Img("Z", X1) = Neg1(X1) /\ Img("Z", Z1) = Z1
    /\ Img("H", X1) = Z1 /\ Img("H", Z1) = X1 /\ Img("S", X1) = Y1 /\ Img("S_DAG", X1) = Neg1(Y1)
    /\ Img("SQRT_X", Z1) = Neg1(Y1) /\ Img("SQRT_X", X1) = X1 /\ Img("SQRT_X_DAG", Z1) = Y1
    /\ Img("SQRT_Y", X1) = Neg1(Z1) /\ Img("SQRT_Y", Z1) = X1 /\ Img("SQRT_Y_DAG", X1) = Z1 /\ Img("SQRT_Y_DAG", Z1) = Neg1(X1)
    /\ Img("H_XY", X1) = Y1 /\ Img("H_XY", Z1) = Neg1(Z1) /\ Img("H_YZ", X1) = Neg1(X1) /\ Img("H_YZ", Z1) = Y1
    /\ LET Two(g, v) == SignedCircuit(N, <<[g |-> g, t |-> <<1, 2>>]>>, [s |-> 0, v |-> v])
           H(v) == [s |-> 0, v |-> v]
       IN  /\ Two("CX", <<1, 0, 0, 0>>) = H(<<1, 1, 0, 0>>) /\ Two("CX", <<0, 0, 0, 1>>) = H(<<0, 0, 1, 1>>)
           /\ Two("CZ", <<1, 0, 0, 0>>) = H(<<1, 0, 0, 1>>) /\ Two("CZ", <<0, 1, 0, 0>>) = H(<<0, 1, 1, 0>>)
           /\ Two("CY", <<1, 0, 0, 0>>) = H(<<1, 1, 0, 1>>) /\ Two("CY", <<0, 1, 0, 0>>) = H(<<0, 1, 1, 0>>) /\ Two("CY", <<0, 0, 0, 1>>) = H(<<0, 0, 1, 1>>)
           /\ Two("SWAP", <<1, 0, 0, 1>>) = H(<<0, 1, 1, 0>>)
           /\ Two("ISWAP", <<1, 0, 0, 0>>) = H(<<0, 1, 1, 1>>) /\ Two("ISWAP", <<0, 1, 0, 0>>) = H(<<1, 0, 1, 1>>) /\ Two("ISWAP", <<0, 0, 1, 0>>) = H(<<0, 0, 0, 1>>)
           /\ Two("ISWAP_DAG", <<1, 0, 0, 0>>) = [s |-> 1, v |-> <<0, 1, 1, 1>>]
    /\ Img("C_XYZ", X1) = Y1 /\ Img("C_XYZ", Z1) = X1 /\ Img("C_ZYX", X1) = Z1 /\ Img("C_ZYX", Z1) = Y1
===============================================================================
