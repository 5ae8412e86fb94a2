---------------------------- MODULE GroupRingLaws ----------------------------
(* Theorems of the specification of group algebras, on all elements of a small ring. *)
EXTENDS GroupRing
CONSTANTS Q, GENS, DEG
VARIABLES x, y, z
R == RingOf(Q, SetToSeq(Closure(GENS, DEG)))
Elems == [1..Cardinality(Closure(GENS, DEG)) -> 0..Q-1]
Init == x \in Elems /\ y = x /\ z = x
\* x is fixed; y and z roam
Next == UNCHANGED x /\ y' \in Elems /\ z' \in {y', RT(R, y), RMul(R, x, y)}
LSpec == Init /\ [][Next]_<<x, y, z>>
GensC2 == {<<1, 0>>}
GensC3 == {<<1, 2, 0>>}
GensC4 == {<<1, 2, 3, 0>>}
GensV4 == {<<1, 0, 2, 3>>, <<0, 1, 3, 2>>}
GensS3 == {<<1, 2, 0>>, <<1, 0, 2>>}
Sum(a, b) == VAdd(Q, a, b)
Laws == /\ RMul(R, RMul(R, x, y), z) = RMul(R, x, RMul(R, y, z))
        /\ RMul(R, x, Sum(y, z)) = Sum(RMul(R, x, y), RMul(R, x, z))
        /\ RMul(R, Sum(y, z), x) = Sum(RMul(R, y, x), RMul(R, z, x))
        /\ RMul(R, x, ROne(R)) = x /\ RMul(R, ROne(R), x) = x
        /\ RT(R, RMul(R, x, y)) = RMul(R, RT(R, y), RT(R, x))
        /\ Regular(R, RMul(R, x, y)) = MatMul(Q, Regular(R, x), Regular(R, y), R.n)
        /\ Regular(R, RT(R, x)) = Transpose(Regular(R, x), R.n)
Units == IsUnit(R, x) = (\E w \in Elems : RMul(R, x, w) = ROne(R) /\ RMul(R, w, x) = ROne(R))
===============================================================================
