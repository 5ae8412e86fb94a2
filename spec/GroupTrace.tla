------------------------------ MODULE GroupTrace ------------------------------
(* The meaning of groups: what each answer about a group must be.              *)
EXTENDS Perms, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
IDot(q, u, v) == IF q = 0 THEN FoldLeft(LAMBDA a, i : a + u[i] * v[i], 0, Idx[Len(u)]) ELSE Dot(q, u, v)
\* sparse product
Axpy(q, c, u, v) == IF q = 0 THEN TLCEval([i \in 1..Len(u) |-> c * u[i] + v[i]]) ELSE VAxpy(q, c, u, v)
SMul(q, A, B) == LET d == Len(B) IN TLCEval([i \in 1..Len(A) |->
    FoldLeft(LAMBDA acc, j : IF A[i][j] = 0 THEN acc ELSE Axpy(q, A[i][j], B[j], acc), ZeroVec(d), Idx[d])])
IMul(q, A, B) == LET T == Transpose(B, Len(A[1])) IN
    TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(T) |-> IDot(q, A[i], T[j])])])
RECURSIVE MGrow(_, _, _, _)
MGrow(q, S, new, gens) ==
    IF new = {} THEN S
    ELSE LET next == TLCEval({IMul(q, x, g) : x \in new, g \in gens} \ S) IN MGrow(q, TLCEval(S \cup next), next, gens)
MClosure(q, gens) == MGrow(q, gens, gens, gens)
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Square(M, d, q) == Len(M) = d /\ \A i \in 1..d : Len(M[i]) = d /\ (q = 0 \/ \A j \in 1..d : M[i][j] \in 0..q-1)
SL2(q) == {<< <<a, b>>, <<c, d>> >> : a, b, c, d \in 0..q-1}
SL2Set(q) == {M \in SL2(q) : Sub(q, Mul(q, M[1][1], M[2][2]), Mul(q, M[1][2], M[2][1])) = 1}
MNeg(q, M) == [i \in 1..Len(M) |-> VNeg(q, M[i])]
\* the members of a group that the model knows exactly
Known == {"trivial", "cyclic", "abelian", "dihedral", "alternating", "symmetric", "perms", "product", "power"}
RECURSIVE PowerSet(_, _)
PowerSet(A, k) == IF k = 1 THEN A ELSE DirectSet(A, PowerSet(A, k - 1))
\* (the degree of the trivial group is not specified, nor is that of its products)
Expected(s, e) ==
    CASE e.fam = "cyclic" -> CyclicSet(e.n)
      [] e.fam = "abelian" -> AbelianSet(e.orders)
      [] e.fam = "dihedral" -> DihedralSet(e.n)
      [] e.fam = "alternating" -> IF e.n = 2 THEN ToSet(e.mem) ELSE AltSet(e.n)
      [] e.fam = "symmetric" -> SymSet(e.n)
      [] e.fam = "perms" -> Closure(ToSet(e.gens), e.n)
      [] e.fam = "product" -> DirectSet(ToSet(s[e.a].mem), ToSet(s[e.b].mem))
      [] e.fam = "power" -> PowerSet(ToSet(s[e.a].mem), e.k)
      [] OTHER -> ToSet(e.mem)
OrderOf(s, e) ==
    CASE e.fam = "trivial" -> 1
      [] e.fam = "quaternion" -> 8
      [] e.fam = "mats" -> Cardinality(MClosure(e.q, ToSet(e.mats)))
      [] e.fam = "table" -> Len(s[e.a].mem)
      [] e.fam = "sl" -> (e.q * e.q - 1) * e.q
      [] e.fam = "psl" -> ((e.q * e.q - 1) * e.q) \div (IF e.q % 2 = 1 THEN 2 ELSE 1)
      [] OTHER -> Cardinality(Expected(s, e))
Deg(mem) == Len(mem[1])
IsGroup(mem) == LET S == ToSet(mem) IN
    /\ \A i \in 1..Len(mem) : IsPerm(mem[i], Deg(mem))
    /\ NoDup(mem) /\ PId(Deg(mem)) \in S
    /\ \A x \in S : \A y \in S : PMul(x, y) \in S
MakeClauses(s, e) ==
    IF Len(e.mem) = 0 THEN {"C09.members"}
    ELSE If(IsGroup(e.mem), "C09.axioms")
      \cup If(e.order = OrderOf(s, e) /\ Len(e.mem) = OrderOf(s, e), "C09.order-" \o e.fam)
      \cup If(ToSet(e.mem) = Expected(s, e), "C09.members-" \o e.fam)
      \cup If(e.ident = PId(Deg(e.mem)), "C09.identity")
      \cup If(\A i \in 1..Len(e.gens_) : Len(e.gens_[i]) = Deg(e.mem), "C09.generators")
      \cup If(Closure(ToSet(e.gens_), Deg(e.mem)) = ToSet(e.mem), "C09.generators")
---------------------------------------------------------------------------
\* lifts: lift[i] is the lift of member i, over GF(q) (over the integers if q = 0)
Hom(q, mem, lift, pairs) == \A p \in 1..Len(pairs) :
    LET a == pairs[p][1] b == pairs[p][2] c == pairs[p][3] IN
       mem[c] = PMul(mem[a], mem[b]) /\ lift[c] = IMul(q, lift[a], lift[b])
PairsOf(mem) == {<<i, j>> : i \in 1..Len(mem), j \in 1..Len(mem)}
LiftClauses(g, e) ==
    LET d == e.dim n == Len(g.mem) q == g.lq IN
    IF Len(e.lift) # n \/ \E i \in 1..n : ~Square(e.lift[i], d, q) THEN {"C09.lift-shape"}
    ELSE If(\A i \in 1..n : g.mem[i] # PId(Deg(g.mem)) \/ e.lift[i] = Identity(d), "C09.lift-identity")
      \cup If((g.fam = "table" /\ g.labels) \/
              \A i \in 1..n, j \in g.genix : e.lift[g.mul[i][j]] = SMul(q, e.lift[i], e.lift[j]), "C09.lift-homomorphism-" \o g.fam)
      \cup (IF g.fam = "mats" THEN If(ToSet(e.lift) = MClosure(q, ToSet(g.mats)), "C09.lift-image-mats")
            ELSE IF g.fam = "sl" THEN If(ToSet(e.lift) = SL2Set(q), "C09.lift-image-sl")
            ELSE IF g.fam = "abelian" THEN
               If(e.dim = (IF g.sum THEN FoldLeft(LAMBDA a, i : a + g.orders[i], 0, Idx[Len(g.orders)])
                           ELSE FoldLeft(LAMBDA a, i : a * g.orders[i], 1, Idx[Len(g.orders)])), "C09.lift-dim-abelian")
            ELSE {})
      \cup If(Cardinality(ToSet(e.lift)) = n, "C09.lift-faithful")
\* labels: the table a group was built from is its multiplication
LabelClauses(g, e) ==
    LET n == Len(g.mem) IN
    IF Len(e.lift) # n \/ \E i \in 1..n : ~Square(e.lift[i], 1, 0) THEN {"C09.lift-shape"}
    ELSE LET at == TLCEval([i \in 1..n |-> e.lift[i][1][1]]) IN
         IF ToSet(at) # 0..n-1 THEN {"C09.table-labels"}
         ELSE If(\A i \in 1..n, j \in 1..n : at[g.mul[i][j]] = g.tab[at[i] + 1][at[j] + 1], "C09.table-structure")
\* cols[i][j]: the nonzero entries <<row, value>> of column j of the regular lift of member i
RegularClauses(g, e) ==
    LET n == Len(g.mem) IN
    IF Len(e.cols) # n \/ \E i \in 1..n : Len(e.cols[i]) # n THEN {"C09.regular-shape"}
    ELSE If(\A i \in 1..n : \A j \in 1..n : e.cols[i][j] = << <<g.mul[i][j] - 1, 1>> >>, "C09.regular-lift")
---------------------------------------------------------------------------
\* what is remembered of a group: how it was made, its members, and their multiplication table
Known1(e) == IF e.exc = "" /\ ~e.skip /\ IsGroup(e.mem) /\ ToSet(e.gens_) \subseteq ToSet(e.mem)
             THEN LET at == TLCEval([x \in ToSet(e.mem) |-> CHOOSE i \in 1..Len(e.mem) : e.mem[i] = x]) n == Len(e.mem)
                  IN  e @@ [genix |-> {at[e.gens_[i]] : i \in 1..Len(e.gens_)}] @@ [mul |-> TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> at[PMul(e.mem[i], e.mem[j])]])])]
             ELSE [op |-> "make", broken |-> TRUE, mem |-> << >>]
AfterEvent(s, e) == IF e.op # "make" THEN s ELSE Append(s, Known1(e))
Broken(g) == g.mem = << >>
CheckEvent(s, e) ==
    IF e.skip THEN {}
    ELSE IF (e.op # "make" /\ Broken(s[e.o])) \/ (e.op \in {"tensor", "eq"} /\ Broken(s[e.b]))
            \/ (e.op = "make" /\ e.fam \in {"product", "power", "table"} /\ Broken(s[e.a]))
            \/ (e.op = "make" /\ e.fam = "product" /\ Broken(s[e.b])) THEN {}
    ELSE IF e.op = "make" THEN IF e.exc # "" THEN {"C09.raises-make-" \o e.fam} ELSE MakeClauses(s, e)
    ELSE IF e.op = "symset" /\ (e.size < 1 \/ e.size > Len(s[e.o].mem)) THEN If(e.exc = "ValueError", "C19.symset-size-rejected")
    ELSE IF e.exc # "" THEN {IF e.op = "eq" THEN "C22.raises-eq" ELSE IF e.op \in {"symset", "random"} THEN "C19.raises-" \o e.op ELSE "C09.raises-" \o e.op}
    ELSE LET g == s[e.o] IN
      CASE e.op = "members" -> If(e.mem = g.mem, "C09.iteration-order")
        [] e.op = "table?" -> If(\A i \in 1..Len(g.mem) : Len(e.tab) = Len(g.mem) /\ e.tab[i] = [j \in 1..Len(g.mem) |-> g.mul[i][j] - 1], "C09.table")
        [] e.op = "lift" -> IF g.fam = "table" /\ g.labels THEN LabelClauses(g, e) ELSE LiftClauses(g, e)
        [] e.op = "regular" -> RegularClauses(g, e)
        [] e.op = "index" -> If(e.ixs = [i \in 1..Len(g.mem) |-> i - 1], "C09.index")
                             \cup If(e.inside /\ (e.foreign_in = (\E i \in 1..Len(g.mem) : g.mem[i] = e.foreign)), "C09.contains")
                             \cup If(e.foreign_in \/ e.foreign_exc = "ValueError", "C09.index-foreign")
        [] e.op = "tensor" -> If(e.r = PTensor(e.p, e.r2), "C09.tensor")
                              \cup If(e.pm = PMat(e.p) /\ e.prod = PMul(e.p, e.p2) /\ e.prodm = IMul(0, e.pm, e.pm2), "C09.permutation-matrix")
                              \cup If(e.inv = PInv(e.p), "C09.inverse")
        [] e.op = "iter_mats" ->
              IF g.fam = "sl" THEN If(NoDup(e.mats_) /\ ToSet(e.mats_) = SL2Set(g.q), "C09.iter-mats-sl")
              ELSE If(NoDup(e.mats_) /\ (\A i \in 1..Len(e.mats_) : e.mats_[i] \in SL2Set(g.q))
                      /\ Len(e.mats_) = Len(g.mem)
                      /\ (ToSet(e.mats_) \cup {MNeg(g.q, M) : M \in ToSet(e.mats_)}) = SL2Set(g.q), "C09.iter-mats-psl")
        [] e.op = "basic" -> If(e.abelian = (\A i, j \in 1..Len(g.mem) : g.mul[i][j] = g.mul[j][i]), "C09.is-abelian")
                             \cup If(e.order = Len(g.mem), "C09.order")
                             \cup If(e.rank_sorted, "C09.sorting")
        [] e.op = "eq" -> LET h == s[e.b] IN
              If(e.r => (Deg(g.mem) = Deg(h.mem) /\ ToSet(g.mem) = ToSet(h.mem)), "C22.group-equality")
              \cup If(e.o = e.b => e.r, "C22.group-equality-reflexive")
              \cup If(e.same => e.r, "C22.group-equality-same-construction")
              \cup If(e.r => e.lifts, "C22.group-equality-lifts")
              \cup If(e.r = e.r2, "C22.group-equality-symmetric")
              \cup If(e.r => e.hash, "C22.group-hash")
              \cup If(e.other = FALSE, "C22.group-equality-type")
        [] e.op = "random" -> If(e.r \in ToSet(g.mem), "C19.random-member")
                              \cup If(e.r2 = e.r, "C19.random-member-reproducible")
        [] e.op = "symset" -> If(ToSet(e.r) \subseteq ToSet(g.mem) /\ NoDup(e.r), "C19.symset-members")
                              \cup If(Len(e.r) = e.size, "C19.symset-size")
                              \cup If(\A x \in ToSet(e.r) : PInv(x) \in ToSet(e.r), "C19.symset-symmetric")
                              \cup If(e.noid => PId(Deg(g.mem)) \notin ToSet(e.r), "C19.symset-identity")
                              \cup If(ToSet(e.r2) = ToSet(e.r), "C19.symset-reproducible")
Start(case) == << >>
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
=================================================================================
