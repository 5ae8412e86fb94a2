------------------------------ MODULE RingTrace ------------------------------
(* The meaning of group-algebra sessions.                                     *)
EXTENDS GroupRing, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
NoRing == [q |-> 0, ok |-> FALSE]
Bad0 == [ring |-> 0]
\* state: rings, elements [ring, v], arrays [ring, A, m, n]
NewRing(e) == IF e.exc = "" /\ ~e.skip /\ IsGroupList(e.mem)
              THEN RingOf(e.q, e.mem) @@ [ok |-> TRUE, lifts |-> e.lifts, dim |-> e.dim, liftq |-> e.liftq] ELSE NoRing
Coefs(R, v) == Len(v) = R.n /\ \A i \in 1..R.n : v[i] \in 0..R.q-1
IsArr(R, A, m, n) == Len(A) = m /\ \A i \in 1..m : Len(A[i]) = n /\ \A j \in 1..n : Coefs(R, A[i][j])
---------------------------------------------------------------------------
\* the element that an operation denotes (or "none")
Denotes(s, e) ==
    LET E == s.elems IN
    CASE e.op = "elem" -> LET R == s.rings[e.ring] IN
           (CASE e.how = "terms" -> Terms(R, e.ts) [] e.how = "vector" -> e.v [] e.how = "zero" -> RZero(R) [] e.how = "one" -> ROne(R))
      [] e.op = "bin" -> LET R == s.rings[E[e.a].ring] x == E[e.a].v y == E[e.b].v IN
           (CASE e.f = "add" -> VAdd(R.q, x, y) [] e.f = "sub" -> VSub(R.q, x, y) [] e.f = "mul" -> RMul(R, x, y))
      [] e.op = "int" -> LET R == s.rings[E[e.a].ring] x == E[e.a].v c == OfInt(R.q, e.c) IN
           (CASE e.f \in {"add", "radd"} -> VAxpy(R.q, c, ROne(R), x) [] e.f = "sub" -> VAxpy(R.q, Neg(R.q, c), ROne(R), x)
              [] e.f \in {"mul", "rmul"} -> VScale(R.q, c, x))
      [] e.op = "member" -> LET R == s.rings[E[e.a].ring] x == E[e.a].v g == RMember(R, e.g) IN
           (CASE e.f \in {"add", "radd"} -> VAdd(R.q, x, g) [] e.f = "sub" -> VSub(R.q, x, g) [] e.f = "mul" -> RMul(R, x, g) [] e.f = "rmul" -> RMul(R, g, x))
      [] e.op = "un" -> LET R == s.rings[E[e.a].ring] x == E[e.a].v IN
           (CASE e.f = "neg" -> VNeg(R.q, x) [] e.f = "T" -> RT(R, x) [] e.f = "copy" -> x
              [] e.f = "pow" /\ e.k >= 0 -> RPow(R, x, e.k)
              [] OTHER -> x)
\* inverses (and negative powers) are judged by multiplication
InverseClauses(s, e) ==
    LET R == s.rings[s.elems[e.a].ring] x == s.elems[e.a].v
        xk == IF e.f = "inverse" THEN x ELSE RPow(R, x, -e.k) IN
    IF IsUnit(R, x)
    THEN IF e.none THEN {"C10.inverse-missing"}
         ELSE If(RMul(R, xk, e.v_) = ROne(R) /\ RMul(R, e.v_, xk) = ROne(R), "C10.inverse")
    ELSE If(e.none \/ e.exc # "", "C10.inverse-of-nonunit")
Neg2(e) == e.op = "un" /\ (e.f = "inverse" \/ (e.f = "pow" /\ e.k < 0))
ElemOps == {"elem", "bin", "int", "member", "un"}
RingIx(s, e) == IF e.op = "elem" THEN e.ring ELSE s.elems[e.a].ring
ElemClauses(s, e) ==
    LET R == s.rings[RingIx(s, e)] name == "C10." \o e.op \o (IF "f" \in DOMAIN e THEN "-" \o e.f ELSE "") IN
    IF Neg2(e) THEN IF e.exc # "" THEN If(~IsUnit(R, s.elems[e.a].v) /\ e.f = "pow", "C10.raises-inverse")
                    ELSE IF ~e.none /\ ~Coefs(R, e.v_) THEN {name} ELSE InverseClauses(s, e)
    ELSE IF e.exc # "" THEN {"C10.raises-" \o e.op \o (IF "f" \in DOMAIN e THEN "-" \o e.f ELSE "")}
    ELSE If(e.v_ = Denotes(s, e), name)
LiftOf(R, x) == TLCEval(FoldLeft(LAMBDA acc, i : IF x[i] = 0 THEN acc ELSE
                  TLCEval([r \in 1..R.dim |-> VAxpy(R.q, x[i], TLCEval([c \in 1..R.dim |-> IF R.liftq = 0 THEN (R.lifts[i][r][c] + 4 * PChar(R.q)) % PChar(R.q) ELSE R.lifts[i][r][c]]), acc[r])]),
                  ZeroMat(R.dim, R.dim), Idx[R.n]))
ObsClauses(s, e) ==
    LET R == s.rings[s.elems[e.a].ring] x == s.elems[e.a].v IN
    IF e.f = "lift" /\ R.liftq # 0 /\ R.liftq # R.q THEN {}     \* a lift to another field
    ELSE IF e.exc # "" THEN {"C10.raises-" \o e.f}
    ELSE CASE e.f = "lift" -> If(e.r = LiftOf(R, x), "C10.lift")
           [] e.f = "regular" -> If(e.r = Regular(R, x), "C10.regular-lift")
           [] e.f = "vector" -> If(e.r = x, "C10.vector")
           [] e.f = "bool" -> If(e.r = ~IsZero(x), "C10.bool")
           [] e.f = "back" -> If(e.r = x, "C10.vector-back")
---------------------------------------------------------------------------
ArrOps == {"arr", "built", "arrun", "arrmul", "arradd", "arrscale"}
ArrDenotes(s, e) ==
    CASE e.op = "arr" -> e.A
      [] e.op = "built" -> LET R == s.rings[e.ring] IN
            TLCEval([i \in 1..Len(e.E) |-> TLCEval([j \in 1..Len(e.E[i]) |->
              IF e.E[i][j][1] = "int" THEN VScale(R.q, e.E[i][j][2], ROne(R)) ELSE RMember(R, e.E[i][j][2])])])
      [] e.op = "arrun" -> LET X == s.arrs[e.a] R == s.rings[X.ring] IN
           (CASE e.f = "T" -> RMatT(R, X.A, X.n)
              [] e.f = "invert" -> TLCEval([i \in 1..X.m |-> TLCEval([j \in 1..X.n |-> RT(R, X.A[i][j])])])
              [] e.f = "neg" -> TLCEval([i \in 1..X.m |-> TLCEval([j \in 1..X.n |-> VNeg(R.q, X.A[i][j])])])
              [] e.f = "int" -> TLCEval([i \in 1..X.m |-> TLCEval([j \in 1..X.n |-> VScale(R.q, OfInt(R.q, e.c), X.A[i][j])])]))
      [] e.op = "arrmul" -> RMatMul(s.rings[s.arrs[e.a].ring], s.arrs[e.a].A, s.arrs[e.b].A, s.arrs[e.b].n)
      [] e.op = "arradd" -> LET X == s.arrs[e.a] Y == s.arrs[e.b] R == s.rings[X.ring] IN
            IF e.f = "vstack" THEN X.A \o Y.A
            ELSE IF e.f = "hstack" THEN TLCEval([i \in 1..X.m |-> X.A[i] \o Y.A[i]])
            ELSE TLCEval([i \in 1..X.m |-> TLCEval([j \in 1..X.n |-> IF e.f = "add" THEN VAdd(R.q, X.A[i][j], Y.A[i][j]) ELSE VSub(R.q, X.A[i][j], Y.A[i][j])])])
      [] e.op = "arrscale" -> LET X == s.arrs[e.a] R == s.rings[X.ring] y == IF e.e = 0 THEN RMember(R, e.g) ELSE s.elems[e.e].v IN
            TLCEval([i \in 1..X.m |-> TLCEval([j \in 1..X.n |-> IF e.left THEN RMul(R, y, X.A[i][j]) ELSE RMul(R, X.A[i][j], y)])])
ArrRing(s, e) == IF e.op \in {"arr", "built"} THEN e.ring ELSE s.arrs[e.a].ring
ArrClauses(s, e) ==
    IF e.exc # "" THEN {"C10.raises-" \o e.op}
    ELSE If(e.A_ = ArrDenotes(s, e), "C10." \o e.op \o (IF "f" \in DOMAIN e THEN "-" \o e.f ELSE ""))
\* documented guarantee of a row of a reduced matrix
PivotRow(R, B, i) == \E c \in 1..Len(B[i]) : B[i][c] = ROne(R) /\ \A k \in 1..Len(B) : k = i \/ IsZero(B[k][c])
NoUnits(R, B, i) == \A c \in 1..Len(B[i]) : ~IsUnit(R, B[i][c])
ReducedClauses(R, B, n) ==
    If(\A i \in 1..Len(B) : \E j \in 1..n : ~IsZero(B[i][j]), "C11.reduced-zero-row")
    \cup If(\A i \in 1..Len(B) : PivotRow(R, B, i) \/ NoUnits(R, B, i), "C11.reduced-units")
    \cup If(\A i \in 1..Len(B) : ~InModule(R, B[i], Without(B, i), n), "C11.reduced-independent")
ArrObsClauses(s, e) ==
    LET X == s.arrs[e.a] R == s.rings[X.ring] IN
    IF e.f = "lift" /\ R.liftq # 0 /\ R.liftq # R.q THEN {}
    ELSE IF e.exc # "" THEN {"C11.raises-" \o e.f}
    ELSE CASE e.f = "reduce" ->
            IF ~IsArr(R, e.r, Len(e.r), X.n) THEN {"C11.reduce-shape"}
            ELSE If(SameModule(R, e.r, X.A, X.n), "C11.row-module") \cup ReducedClauses(R, e.r, X.n)
         [] e.f = "null" ->
            IF ~IsArr(R, e.r, Len(e.r), X.n) THEN {"C11.null-shape"}
            ELSE If(IsZeroMat(RMatMul(R, X.A, RMatT(R, e.r, X.n), Len(e.r))), "C11.null-annihilated")
                 \cup If(ModuleDim(R, e.r, X.n) = X.n * R.n - Rank(R.q, RegularBlock(R, X.A), X.n * R.n), "C11.null-spans")
         [] e.f = "field" -> If(e.r = X.A /\ e.back = X.A, "C11.field-array")
         [] e.f = "vector" -> If(e.r = FlatRow(X.A[e.row]) /\ e.back = X.A[e.row], "C11.field-vector")
         [] e.f = "regular" -> If(e.r = RegularBlock(R, X.A), "C11.regular-lift")
         [] e.f = "lift" -> If(e.r = FoldLeft(LAMBDA acc, i : acc \o
                 TLCEval([r \in 1..R.dim |-> FlatRow(TLCEval([j \in 1..X.n |-> LiftOf(R, X.A[i][j])[r]]))]), << >>, Idx[X.m]), "C11.lift")
---------------------------------------------------------------------------
\* events about objects that could not be made are not judged
Usable(s, e) ==
    CASE e.op = "ring" -> TRUE
      [] e.op \in {"elem", "arr", "built"} -> s.rings[e.ring].ok
      [] e.op \in {"bin", "eq"} -> s.elems[e.a].ring # 0 /\ s.elems[e.b].ring # 0
      [] e.op \in {"int", "member", "un", "obs"} -> s.elems[e.a].ring # 0
      [] e.op \in {"arrmul", "arradd", "arreq", "arrmix"} -> s.arrs[e.a].ring # 0 /\ s.arrs[e.b].ring # 0
      [] e.op \in {"arrun", "arrobs"} -> s.arrs[e.a].ring # 0
      [] e.op = "arrscale" -> s.arrs[e.a].ring # 0 /\ (e.e = 0 \/ s.elems[e.e].ring = s.arrs[e.a].ring)
      [] e.op = "ringobs" -> s.rings[e.a].ok
      [] e.op = "ringeq" -> s.rings[e.a].ok /\ s.rings[e.b].ok
SameRing(s, a, b) == LET A == s.rings[a] B == s.rings[b] IN A.q = B.q /\ {A.mem[i] : i \in 1..A.n} = {B.mem[i] : i \in 1..B.n}
CheckEvent(s, e) ==
    LET mut == If(e.mut = << >>, "C10.mutated") IN
    IF e.skip \/ ~Usable(s, e) THEN mut
    ELSE mut \cup
     CASE e.op = "ring" -> IF e.exc # "" THEN {"C10.raises-ring"} ELSE If(IsGroupList(e.mem), "C10.ring-group") \cup If(e.field = e.q, "C10.ring-field")
       [] e.op \in ElemOps -> ElemClauses(s, e)
       [] e.op = "obs" -> ObsClauses(s, e)
       [] e.op \in ArrOps -> ArrClauses(s, e)
       [] e.op = "arrobs" -> ArrObsClauses(s, e)
       [] e.op = "arrmix" -> If(e.exc # "" \/ SameRing(s, s.arrs[e.a].ring, s.arrs[e.b].ring), "C10.mixed-rings")
       [] e.op = "ringobs" -> IF e.exc # "" THEN {"C10.raises-ringobs"}
             ELSE LET R == s.rings[e.a] IN
                  If(e.abelian = (\A i \in 1..R.n : \A j \in 1..R.n : RMul(R, RMember(R, i), RMember(R, j)) = RMul(R, RMember(R, j), RMember(R, i))), "C10.abelian")
                  \cup If(e.semisimple = (R.n % PChar(R.q) # 0), "C10.semisimple")
       [] e.op = "ringeq" -> IF e.exc # "" THEN {"C22.raises-ringeq"}
             ELSE If(e.r => SameRing(s, e.a, e.b), "C22.ring-equality") \cup If(e.r = e.r2, "C22.ring-equality-symmetric")
                  \cup If(e.r => e.hash, "C22.ring-hash") \cup If(e.same => e.r, "C22.ring-equality-same-construction")
       [] e.op = "eq" -> LET x == s.elems[e.a] y == s.elems[e.b] IN IF e.exc # "" THEN {"C22.raises-element-equality"}
             ELSE IF x.ring = y.ring THEN If(e.r = (x.v = y.v), "C22.element-equality") \cup If(e.r2 = e.r, "C22.element-equality-symmetric")
             ELSE If(e.r => SameRing(s, x.ring, y.ring), "C22.element-equality-rings") \cup If(e.r2 = e.r, "C22.element-equality-symmetric")
       [] e.op = "arreq" -> LET x == s.arrs[e.a] y == s.arrs[e.b] IN IF e.exc # "" THEN {"C22.raises-array-equality"}
             ELSE If(e.r = (x.A = y.A), "C22.array-equality")
                  \cup If(e.entries = [i \in 1..x.m |-> [j \in 1..x.n |-> x.A[i][j] = y.A[i][j]]], "C22.array-entries")
AfterEvent(s, e) ==
    CASE e.op = "ring" -> [s EXCEPT !.rings = Append(@, NewRing(e))]
      [] e.op \in ElemOps -> [s EXCEPT !.elems = Append(@,
            IF e.skip \/ ~Usable(s, e) \/ e.exc # "" THEN Bad0
            ELSE IF e.none \/ ~Coefs(s.rings[RingIx(s, e)], e.v_) THEN Bad0
            ELSE [ring |-> RingIx(s, e), v |-> e.v_])]
      [] e.op \in ArrOps -> [s EXCEPT !.arrs = Append(@,
            IF e.skip \/ ~Usable(s, e) \/ e.exc # "" THEN Bad0
            ELSE IF e.A_ = << >> \/ ~IsArr(s.rings[ArrRing(s, e)], e.A_, Len(e.A_), Len(e.A_[1])) THEN Bad0
            ELSE [ring |-> ArrRing(s, e), A |-> e.A_, m |-> Len(e.A_), n |-> Len(e.A_[1])])]
      [] OTHER -> s
Start(case) == [rings |-> << >>, elems |-> << >>, arrs |-> << >>]
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
=================================================================================
