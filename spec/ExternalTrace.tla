------------------------------- MODULE ExternalTrace -------------------------------
(***************************************************************************)
(* What lookups return.  The abstract state is the current process (which  *)
(* GAP, which packages) and the store of answers.  An answer, once given,  *)
(* is the answer; otherwise it is what the local table, GAP, or the web    *)
(* (in this order) describe; and a lookup that fails leaves no trace.      *)
(***************************************************************************)
EXTENDS Perms, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
Start(case) == [gap |-> FALSE, guava |-> FALSE, wedderga |-> FALSE, user |-> FALSE, git |-> FALSE, inst |-> {}, store |-> << >>]
Has(s, key) == \E i \in 1..Len(s.store) : s.store[i][1] = key
Got(s, key) == s.store[CHOOSE i \in 1..Len(s.store) : s.store[i][1] = key][2]
\* outcomes: a value to return, or a failure; whether to keep it
Value(v) == [ok |-> TRUE, v |-> v, keep |-> TRUE]
Free(v) == [ok |-> TRUE, v |-> v, keep |-> FALSE]
Fail == [ok |-> FALSE, v |-> << >>, keep |-> FALSE]
---------------------------------------------------------------------------
\* keys are sequences of strings
NameKey(nm) == CASE nm.form = "known" -> <<"gens", "known", ToString(nm.known)>>
                 [] OTHER -> <<"gens", nm.form, ToString(nm.order), ToString(nm.index)>>
GensKey(o, i) == <<"gens", "small", ToString(o), ToString(i)>>
\* generators of a group that is not in the local table
Lookup(s, key, form, gens, w) ==
    IF Has(s, key) THEN Free(Got(s, key))
    ELSE IF s.gap THEN (IF ~s.guava THEN Fail ELSE IF w.fault = "" THEN Value(gens) ELSE IF w.fault = "empty" THEN Value(<< >>) ELSE Fail)
    ELSE IF form = "small" /\ w.web = "up" /\ gens # << >> THEN Value(gens) ELSE Fail
Gens(s, e) == IF e.name.form = "known" THEN Free(e.known) ELSE Lookup(s, NameKey(e.name), e.name.form, e.gens, e.w)
NumKey(e) == <<"number", ToString(e.order)>>
Reach(w) == w.web \notin {"down", "http"}
Number(s, e) ==
    IF Has(s, NumKey(e)) THEN Free(Got(s, NumKey(e)))
    ELSE IF s.gap THEN (IF e.w.fault = "" THEN Value(e.num) ELSE Fail)
    ELSE IF Reach(e.w) /\ e.w.web # "missing" /\ (e.op = "small" => e.gens # << >>) THEN Value(e.num) ELSE Fail
StrKey(e) == <<"structure", ToString(e.order), ToString(e.index)>>
Structure(s, e) ==
    IF Has(s, StrKey(e)) THEN Free(Got(s, StrKey(e)))
    ELSE IF s.gap THEN (IF e.w.fault \in {"stderr", "empty"} THEN Fail ELSE Value(e.text)) ELSE Free("")
CodeKey(e) == <<"code", ToString(e.ix)>>
Code(s, e) ==
    IF Has(s, CodeKey(e)) THEN Free(Got(s, CodeKey(e)))
    ELSE IF s.gap /\ s.guava /\ e.w.fault = "" THEN Value([q |-> e.q, checks |-> e.checks]) ELSE Fail
IdemKey(e) == <<"idem", ToString(e.n), ToString(e.b), ToString(e.q)>>
\* elements of a cyclic group, or of a product of two: pairs of rotations of disjoint blocks
Element(n, b, e) == IF b = 0 THEN Rotation(n, e) ELSE LET r == Rotation(b, e \div n) IN Rotation(n, e % n) \o [i \in 1..b |-> n + r[i]]
\* Z(p^k)^m as an element of the field of order q, whose subfield of order p^k is made of powers of Z(q)^((q-1)/(p^k-1))
Prim(q) == CASE q = 2 -> 1 [] q = 3 -> 2 [] q = 5 -> 2 [] q = 7 -> 3 [] OTHER -> PChar(q)
PowerOf(q, a, n) == FoldLeft(LAMBDA acc, i : Mul(q, acc, a), 1, Idx[n])
ZPower(q, k, m) == PowerOf(q, Prim(q), m * ((q - 1) \div (Pow(PChar(q), k) - 1)))
Terms(e, mem) == {<<ZPower(e.q, mem[i][2], mem[i][3]), Element(e.n, e.b, mem[i][1])>> : i \in 1..Len(mem)}
Idem(s, e) ==
    IF Has(s, IdemKey(e)) THEN Free(Got(s, IdemKey(e)))
    ELSE IF s.gap /\ s.wedderga /\ e.w.fault = "" THEN Value([i \in 1..Len(e.members) |-> Terms(e, e.members[i])]) ELSE Fail
\* the number of groups comes first, and is kept even if the group cannot be retrieved
SmallNum(s, e) == Number(s, e)
Keep(s, key, o) == IF o.ok /\ o.keep THEN [s EXCEPT !.store = Append(@, <<key, o.v>>)] ELSE s
Small(s, e) == LET num == SmallNum(s, e) IN
    IF ~num.ok \/ e.index > num.v THEN Fail
    ELSE IF e.order = 1 THEN Free(<< >>)
    ELSE IF ~s.gap /\ e.index > e.num /\ ~Has(s, GensKey(e.order, e.index)) THEN Fail   \* known to exist, but not listed now
    ELSE Lookup(s, GensKey(e.order, e.index), "small", e.gens, e.w)
---------------------------------------------------------------------------
\* permutations are compared up to fixed points at the end
Pad(p, n) == TLCEval([i \in 1..n |-> IF i <= Len(p) THEN p[i] ELSE i - 1])
Longest(ps, n) == FoldLeft(LAMBDA acc, p : IF Len(p) > acc THEN Len(p) ELSE acc, n, ps)
SamePerms(ps, rs) == LET n == Longest(ps, Longest(rs, 1)) IN Len(ps) = Len(rs) /\ \A i \in 1..Len(ps) : Pad(ps[i], n) = Pad(rs[i], n)
\* a group may present its generators differently, as long as they are the same permutations
PermSet(ps, n) == {Pad(ps[i], n) : i \in 1..Len(ps)} \ {PId(n)}
SameGens(ps, rs) == LET n == Longest(ps, Longest(rs, 1)) IN PermSet(ps, n) = PermSet(rs, n)
MembersOK(e, gens) == e.members = << >> \/ LET n == Longest(gens, Longest(e.members, 1)) IN
    n > 4 \/ {Pad(e.members[i], n) : i \in 1..Len(e.members)} = Closure(PermSet(gens, n), n)
GroupOK(e, gens) == SameGens(e.result, gens) /\ MembersOK(e, gens)
Expect(s, e) == CASE e.op = "gens" -> Gens(s, e) [] e.op = "number" -> Number(s, e) [] e.op = "structure" -> Structure(s, e)
                  [] e.op = "code" -> Code(s, e) [] e.op = "idem" -> Idem(s, e) [] OTHER -> Small(s, e)
Same(e, o) == CASE e.op = "gens" -> (IF e.how = "raw" THEN SamePerms(e.result, o.v) ELSE GroupOK(e, o.v))
                [] e.op = "number" -> e.result = o.v
                [] e.op = "structure" -> (IF o.v = "" THEN e.named ELSE e.result = o.v)
                [] e.op = "code" -> e.q_ = o.v.q /\ e.result = o.v.checks
                [] e.op = "idem" -> Len(e.result) = Len(o.v) /\ \A i \in 1..Len(o.v) : {<<e.result[i][j][1], e.result[i][j][2]>> : j \in 1..Len(e.result[i])} = o.v[i] /\ Len(e.result[i]) = Cardinality(o.v[i])
                [] OTHER -> GroupOK(e, o.v)
\* answers that make no sense may be rejected in any way
Documented(e) == e.exc = "ValueError" \/ e.w.fault \in {"garbage", "trunc"}
---------------------------------------------------------------------------
\* the package that a lookup needs from GAP, if it needs one and it is not there: it is fetched if, and only if, the user agrees
NeedsGens(s, key) == s.gap /\ ~s.guava /\ ~Has(s, key)
Missing(s, e) == CASE e.op = "gens" -> (IF e.name.form # "known" /\ NeedsGens(s, NameKey(e.name)) THEN "guava" ELSE "")
                   [] e.op = "small" -> (LET num == Number(s, e) IN IF num.ok /\ e.index <= num.v /\ e.order # 1 /\ NeedsGens(s, GensKey(e.order, e.index)) THEN "guava" ELSE "")
                   [] e.op = "code" -> (IF s.gap /\ ~s.guava /\ ~Has(s, CodeKey(e)) THEN "guava" ELSE "")
                   [] e.op = "idem" -> (IF s.gap /\ ~s.wedderga /\ ~Has(s, IdemKey(e)) THEN "wedderga" ELSE "")
                   [] OTHER -> ""
Fetch(s, e) == LET p == Missing(s, e) IN
    IF p = "" \/ ~s.user \/ ~s.git THEN s
    ELSE [s EXCEPT !.guava = @ \/ p = "guava", !.wedderga = @ \/ p = "wedderga", !.inst = @ \cup {p}]
Consent(s, e) == LET p == Missing(s, e) IN
    /\ (e.asked > 0) = (p # "")
    /\ e.cloned = IF p # "" /\ s.user THEN <<p>> ELSE << >>
CheckEvent(s0, e) ==
    IF e.op = "proc" THEN {}
    ELSE IF e.op = "abort" THEN {"C20.terminates"}
    ELSE If(Consent(s0, e), "C20.consent") \cup LET s == Fetch(s0, e) o == Expect(s, e) IN
         IF o.ok THEN (IF e.exc # "" THEN {"C20.raises"} ELSE If(Same(e, o), "C20.answer"))
         ELSE IF e.exc = "" THEN {"C20.wrong-data"} ELSE If(Documented(e), "C20.failure")
AfterEvent(s0, e) ==
    IF e.op = "proc" THEN [s0 EXCEPT !.gap = e.gap \in {"4.12.1", "4.11.0"}, !.guava = e.guava \/ "guava" \in s0.inst,
                           !.wedderga = e.wedderga \/ "wedderga" \in s0.inst, !.user = e.user \in {"y", "Y", "", " y "}, !.git = e.git]
    ELSE IF e.op = "abort" THEN s0
    ELSE LET s == Fetch(s0, e) IN
         CASE e.op = "gens" -> Keep(s, NameKey(e.name), Gens(s, e))
           [] e.op = "number" -> Keep(s, NumKey(e), Number(s, e))
           [] e.op = "structure" -> Keep(s, StrKey(e), Structure(s, e))
           [] e.op = "code" -> Keep(s, CodeKey(e), Code(s, e))
           [] e.op = "idem" -> Keep(s, IdemKey(e), Idem(s, e))
           [] OTHER -> LET s1 == Keep(s, NumKey(e), SmallNum(s, e)) IN IF e.order = 1 THEN s1 ELSE Keep(s1, GensKey(e.order, e.index), Small(s, e))
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
===============================================================================
