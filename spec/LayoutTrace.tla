------------------------------- MODULE LayoutTrace -------------------------------
(***************************************************************************)
(* Bivariate bicycle codes as codes on a torus of plaquettes.  An element  *)
(* of the group Z_o1 x Z_o2 is a pair of exponents; a polynomial is a set  *)
(* of terms <<coefficient, i, j>> with exponents reduced modulo orders.    *)
(***************************************************************************)
EXTENDS GF, TraceFile
CONSTANTS Lanes
VARIABLES cs, ix, st
If(cond, name) == IF cond THEN {} ELSE {name}
Start(case) == 0
Red(t, o) == <<t[1], t[2] % o[1], t[3] % o[2]>>
Cell(o, i, j) == (i % o[1]) * o[2] + (j % o[2])
\* what the checks of plaquette (a, b) act on
XRow(q, o, A, B, a, b) == {<<Cell(o, a + t[2], b + t[3]), t[1]>> : t \in A} \cup {<<o[1] * o[2] + Cell(o, a + t[2], b + t[3]), t[1]>> : t \in B}
ZRow(q, o, A, B, a, b) == {<<Cell(o, a - t[2], b - t[3]), t[1]>> : t \in B} \cup {<<o[1] * o[2] + Cell(o, a - t[2], b - t[3]), Neg(q, t[1])>> : t \in A}
Set(s) == {s[i] : i \in 1..Len(s)}
CodeOK(q, o, A, B, c) == LET N == o[1] * o[2] IN
    Len(c.X) = N /\ Len(c.Z) = N /\ \A a \in 0..o[1]-1, b \in 0..o[2]-1 :
        Set(c.X[a * o[2] + b + 1]) = XRow(q, o, A, B, a, b) /\ Set(c.Z[a * o[2] + b + 1]) = ZRow(q, o, A, B, a, b)
---------------------------------------------------------------------------
\* labels and positions: plaquette (a, b) has L X above Z R
Corner == [L |-> <<0, 1>>, X |-> <<1, 1>>, Z |-> <<0, 0>>, R |-> <<1, 0>>]
LabelOK(o, p) == LET N == o[1] * o[2] half == p.ix \div N r == p.ix % N IN
    /\ p.sector = (IF p.data THEN (IF half = 0 THEN "L" ELSE "R") ELSE IF half = 0 THEN "X" ELSE "Z")
    /\ p.a = r \div o[2] /\ p.b = r % o[2]
FlatOK(o, p) == p.pos = <<2 * p.a + Corner[p.sector][1], 2 * p.b + Corner[p.sector][2]>>
Grid(o) == {<<x, y>> : x \in 0..2 * o[1] - 1, y \in 0..2 * o[2] - 1}
Bijective(o, ps) == {ps[i].pos : i \in 1..Len(ps)} = Grid(o) /\ Len(ps) = 4 * o[1] * o[2]
Abs(x) == IF x < 0 THEN -x ELSE x
Ring(x, y, w) == LET d == Abs(x - y) IN IF d <= w - d THEN d ELSE w - d
TorusDist(o, p, r) == Ring(p[1], r[1], 2 * o[1]) + Ring(p[2], r[2], 2 * o[2])
PlaneDist(p, r) == Abs(p[1] - r[1]) + Abs(p[2] - r[2])
\* data qubits come first in the list of places
DataPos(ps, c) == ps[c + 1].pos
CheckPos(o, ps, k) == ps[2 * o[1] * o[2] + k + 1].pos
Rows(c) == c.X \o c.Z
\* four data qubits of every check are nearest neighbours on the torus, and stay close when the torus is folded
Near(o, b) == LET rows == Rows(b.code) IN
    \A k \in 1..Len(rows) : LET close == {c \in {rows[k][i][1] : i \in 1..Len(rows[k])} : TorusDist(o, DataPos(b.flat, c), CheckPos(o, b.flat, k - 1)) = 1} IN
        Cardinality(close) = 4 /\ \A c \in close : PlaneDist(DataPos(b.folded, c), CheckPos(o, b.folded, k - 1)) <= 2
PlacesOK(o, e) == If(\A i \in 1..Len(e.flat) : LabelOK(o, e.flat[i]) /\ LabelOK(o, e.folded[i]), "C21.labels")
                  \cup If(\A i \in 1..Len(e.flat) : e.flat[i].sector \in DOMAIN Corner /\ FlatOK(o, e.flat[i]), "C21.positions")
                  \cup If(\A i \in 1..Len(e.flat) : e.flat[i].same /\ e.folded[i].same, "C21.positions-consistent")
                  \cup If(Bijective(o, e.flat), "C21.positions-one-to-one") \cup If(Bijective(o, e.folded), "C21.folded-one-to-one")
---------------------------------------------------------------------------
\* toric layouts, by definition
Times(o, k, v) == <<(k * v[1]) % o[1], (k * v[2]) % o[2]>>
Order(o, v) == CHOOSE k \in 1..o[1] * o[2] : Times(o, k, v) = <<0, 0>> /\ \A j \in 1..k-1 : Times(o, j, v) # <<0, 0>>
Comb(o, i, g, j, h) == <<(i * g[1] + j * h[1]) % o[1], (i * g[2] + j * h[2]) % o[2]>>
Basis(o, g, h) == LET og == Order(o, g) oh == Order(o, h) IN
    og * oh = o[1] * o[2] /\ Cardinality({Comb(o, i, g, j, h) : i \in 0..og-1, j \in 0..oh-1}) = o[1] * o[2]
Diff(o, s, t) == <<(s[2] - t[2]) % o[1], (s[3] - t[3]) % o[2]>>
Coords(o, g, h, og, oh, v) == CHOOSE ij \in (0..og-1) \X (0..oh-1) : Comb(o, ij[1], g, ij[2], h) = v
Rewrite(o, g, h, og, oh, P, base) == {LET c == Coords(o, g, h, og, oh, Diff(o, t, base)) IN <<t[1], c[1], c[2]>> : t \in P}
OneLayout(o, A, B, a1, a2, b1, b2) ==
    LET g == Diff(o, a2, a1) h == Diff(o, b2, b1) og == Order(o, g) oh == Order(o, h)
    IN  IF og >= oh THEN [orders |-> <<og, oh>>, pa |-> Rewrite(o, g, h, og, oh, A, a1), pb |-> Rewrite(o, g, h, og, oh, B, b1)]
        ELSE [orders |-> <<oh, og>>, pa |-> Rewrite(o, h, g, oh, og, B, b1), pb |-> Rewrite(o, h, g, oh, og, A, a1)]
Layouts(o, A, B) == {OneLayout(o, A, B, c[1], c[2], c[3], c[4]) : c \in {c \in A \X A \X B \X B : c[1] # c[2] /\ c[3] # c[4] /\ Basis(o, Diff(o, c[2], c[1]), Diff(o, c[4], c[3]))}}
Reported(f) == [orders |-> f.orders, pa |-> {Red(f.pa[i], f.orders) : i \in 1..Len(f.pa)}, pb |-> {Red(f.pb[i], f.orders) : i \in 1..Len(f.pb)}]
Terms(p, o, swapped) == {Red(<<p[i][1], p[i][2][IF swapped THEN 2 ELSE 1], p[i][2][IF swapped THEN 1 ELSE 2]>>, o) : i \in 1..Len(p)}
Centred(e, w) == 2 * e <= w /\ 2 * e > -w
CanonOK(o, P, c) == {Red(c[i], o) : i \in 1..Len(c)} = P /\ Len(c) = Cardinality(P) /\ \A i \in 1..Len(c) : Centred(c[i][2], o[1]) /\ Centred(c[i][3], o[2])
CheckEvent(s, e) ==
    IF e.skip THEN {} ELSE IF e.exc # "" THEN {"C21.raises"}
    ELSE LET o == IF e.swapped THEN <<e.oy, e.ox>> ELSE <<e.ox, e.oy>>
             A == Terms(e.pa, o, e.swapped)
             B == Terms(e.pb, o, e.swapped)
         IN  IF ~(e.orders_ = o /\ e.q_ = e.q /\ e.n_ = 2 * o[1] * o[2]) THEN {"C21.parameters"}
             ELSE LET want == Layouts(o, A, B)
                      got == {Reported(e.found[i]) : i \in 1..Len(e.found)}
                  IN  If(CodeOK(e.q, o, A, B, e.code), "C21.support") \cup PlacesOK(o, e)
                      \cup If(CanonOK(o, A, e.canon[1]) /\ CanonOK(o, B, e.canon[2]), "C21.canonical-form")
                      \cup If(got \subseteq want, "C21.not-equivalent") \cup If(want \subseteq got, "C21.missing-layout") \cup If(e.again, "C21.stable")
                      \cup If(\A i \in 1..Len(e.found) : e.found[i].orders[1] >= e.found[i].orders[2], "C21.wide")
                      \cup UNION {LET b == e.built[i] r == Reported(e.found[i]) IN
                                  If(b.orders = r.orders /\ CodeOK(e.q, r.orders, r.pa, r.pb, b.code), "C21.rebuilt-code") \cup PlacesOK(r.orders, b)
                                  \cup If(Near(r.orders, b), "C21.nearest-neighbours") : i \in 1..Len(e.built)}
AfterEvent(s, e) == s
C == INSTANCE Conf WITH Trace <- TraceData, Init0 <- Start, StepOf <- AfterEvent, Bad <- CheckEvent
Spec == C!Spec
===============================================================================
