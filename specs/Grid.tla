-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* C18.  Grid and polygon utilities, on integers and exact rationals.        *)
(* A point of a polygon is <<x, y>>; a computed point <<x, y, d>> is x/d, y/d. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[i] : i \in 1..Len(q)}
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)

\* --- bins ---------------------------------------------------------------
\* regular edges e0 + k * de, k = 0..n; the bins that contain x, ends included
Bins(e0, de, n, x) == {k \in 0..(n - 1) : LET a == e0 + k * de b == a + de IN (a <= x /\ x <= b) \/ (b <= x /\ x <= a)}
BinOK(e0, de, n, x, i) == LET bs == Bins(e0, de, n, x) IN IF bs = {} THEN i < 0 \/ i >= n ELSE i \in bs

\* --- connectivity -------------------------------------------------------
Node(n, j, i) == i + j * (n + 1)
\* corners of cell (j, i) of a layer, once around
Around(n, j, i) == <<Node(n, j, i + 1), Node(n, j, i), Node(n, j + 1, i), Node(n, j + 1, i + 1)>>
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Same4(a, b) == \E s \in 0..3 : \A k \in 1..4 : a[k] = b[((k - 1 + s) % 4) + 1]
Shift(q, x) == [k \in 1..Len(q) |-> q[k] + x]
LayerSize(m, n) == (n + 1) * (m + 1)
\* the c-th cell (0-based) of m x n x p
CellOK(m, n, p, ll, c, row) ==
    LET lay == c \div (m * n) r == c % (m * n) q == Around(n, r \div n, r % n)
        o(x) == IF ll THEN Rev(x) ELSE x
        base == Shift(q, lay * LayerSize(m, n)) top == Shift(q, (lay + 1) * LayerSize(m, n))
    IN IF p = 1 THEN Len(row) = 4 /\ Same4(row, o(q))
       ELSE /\ Len(row) = 8
            /\ LET h1 == SubSeq(row, 1, 4) h2 == SubSeq(row, 5, 8)
                   b == IF ll THEN top ELSE base t == IF ll THEN base ELSE top
               IN Same4(h1, o(b)) /\ h2 = Shift(h1, t[1] - b[1])
ConnOK(e, v) == LET p == e.p IN
    /\ Len(v) = e.m * e.n * (IF p = 1 THEN 1 ELSE p - 1)
    /\ \A c \in 1..Len(v) : CellOK(e.m, e.n, p, e.ll, c - 1, v[c])

\* --- polygons -----------------------------------------------------------
RECURSIVE Shoe(_, _)
Shoe(P, i) == IF i > Len(P) THEN 0
              ELSE LET a == P[i] b == P[(i % Len(P)) + 1] IN a[1] * b[2] - a[2] * b[1] + Shoe(P, i + 1)
Twice(P) == IF Len(P) < 3 THEN 0 ELSE Shoe(P, 1)
RECURSIVE SumC(_, _, _)
SumC(crd, row, j) == IF row = <<>> THEN 0 ELSE crd[Head(row) + 1][j] + SumC(crd, Tail(row), j)
Hom(p) == IF Len(p) = 3 THEN p ELSE <<p[1], p[2], 1>>
\* cross product sign of (b - a) x (c - a), a and b integer points
Side(a, b, c) == (b[1] - a[1]) * (c[2] - a[2] * c[3]) - (b[2] - a[2]) * (c[1] - a[1] * c[3])
InPoly(P, c) == \A i \in 1..Len(P) : Side(P[i], P[(i % Len(P)) + 1], c) >= 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Red(p) == LET s == IF p[3] < 0 THEN -1 ELSE 1 g == Gcd(Gcd(Abs(p[1]), Abs(p[2])), Abs(p[3])) IN <<(s * p[1]) \div g, (s * p[2]) \div g, (s * p[3]) \div g>>
\* the common point of lines a-b and c-d (integer points), or <<>>
Cross(a, b, c, d) ==
    LET den == (a[1] - b[1]) * (c[2] - d[2]) - (a[2] - b[2]) * (c[1] - d[1])
        s1 == a[1] * b[2] - a[2] * b[1] s2 == c[1] * d[2] - c[2] * d[1]
    IN IF den = 0 THEN <<>> ELSE Red(<<s1 * (c[1] - d[1]) - s2 * (a[1] - b[1]), s1 * (c[2] - d[2]) - s2 * (a[2] - b[2]), den>>)
Nx(P, i) == P[(i % Len(P)) + 1]
\* corners of the common region: corners of one inside the other, and edge crossings
Common(A, B) == {c \in {Hom(A[i]) : i \in 1..Len(A)} \cup {Hom(B[i]) : i \in 1..Len(B)}
                       \cup ({Cross(A[i], Nx(A, i), B[j], Nx(B, j)) : i \in 1..Len(A), j \in 1..Len(B)} \ {<<>>}) : InPoly(A, c) /\ InPoly(B, c)}
\* exact orientation of three rational points
Turn(p, q, r) == LET ux == q[1] * p[3] - p[1] * q[3] uy == q[2] * p[3] - p[2] * q[3]
                     vx == r[1] * p[3] - p[1] * r[3] vy == r[2] * p[3] - p[2] * r[3]
                 IN ux * vy - uy * vx
Between(p, q, r) == \* q strictly inside segment p-r
    /\ Turn(p, q, r) = 0 /\ p # q /\ q # r
    /\ \/ (p[1] * q[3] - q[1] * p[3]) * (r[1] * q[3] - q[1] * r[3]) < 0
       \/ (p[2] * q[3] - q[2] * p[3]) * (r[2] * q[3] - q[2] * r[3]) < 0
Corners(C) == {c \in C : ~\E p, r \in C : Between(p, c, r)}
\* (Common(A, B) holds only boundary points, so those not between two others are the corners)
Flat(C) == \A p, q, r \in C : Turn(p, q, r) = 0
RECURSIVE Dedup(_, _)
Dedup(v, i) == IF i > Len(v) THEN <<>> ELSE (IF v[i] = v[(i % Len(v)) + 1] THEN <<>> ELSE <<v[i]>>) \o Dedup(v, i + 1)
ClipBad(A, B, v) ==
    LET C == Common(A, B) R == Rng(v) d == Dedup(v, 1) IN
    (IF \A c \in R : InPoly(A, c) /\ InPoly(B, c) THEN {} ELSE {"outside"})
    \cup (IF Flat(C) \/ Corners(C) \subseteq R THEN {} ELSE {"incomplete"})
    \cup (IF Flat(C) \/ \A i \in 1..Len(d) : Turn(d[i], Nx(d, i), Nx(d, (i % Len(d)) + 1)) >= 0 THEN {} ELSE {"order"})

\* --- tolerance grids ----------------------------------------------------
\* widths in units; grid values are reported as multiples of unit / (2 * ndiv)
Tol(e) == LET b == Min2(e.b, e.w)
              W == IF e.adj THEN CeilDiv(e.w, b) * b ELSE e.w
          IN IF e.one THEN LET n == W \div b IN [ndiv |-> 2 * n, grid |-> [k \in 1..(2 * n + 1) |-> (k - 1 - n) * b * 4 * n]]
             ELSE LET n == e.sub * CeilDiv(W, b) IN [ndiv |-> n, grid |-> [k \in 1..(n + 1) |-> 2 * (k - 1) * W - n * W]]

XBegin(h) == [h |-> 0]
XJudge(s, e) ==
    LET o == e.obs V(b, w) == [st |-> s, bad |-> b, want |-> w] B(x, n) == IF x THEN {} ELSE {n} IN
    IF o.k = "err" THEN V(IF e.op = "bins" /\ (e.n < 1 \/ e.de = 0) THEN {} ELSE {e.op}, "no error")
    ELSE CASE e.op = "bins" -> V(B(e.n >= 1 /\ e.de # 0 /\ Len(o.v) = Len(e.x) /\ \A i \in 1..Len(e.x) : BinOK(e.e0, e.de, e.n, e.x[i], o.v[i]), "bins"),
                                 [i \in 1..Len(e.x) |-> Bins(e.e0, e.de, e.n, e.x[i])])
           [] e.op = "conn" -> V(B(ConnOK(e, o.v), "conn"), "cells in order")
           [] e.op = "cent" -> LET w == [c \in 1..Len(e.con) |-> [j \in 1..Len(e.crd[1]) |-> SumC(e.crd, e.con[c], j)]] IN V(B(o.v = w, "cent"), w)
           [] e.op = "areas" -> LET w == [c \in 1..Len(e.con) |-> Twice([k \in 1..Len(e.con[c]) |-> e.crd[e.con[c][k] + 1]])] IN V(B(o.v = w, "areas"), w)
           [] e.op = "area" -> V(B(o.v = Twice(e.P), "area"), Twice(e.P))
           [] e.op = "cross" -> LET w == Cross(e.a, e.b, e.c, e.d) IN V(B(o.v = w, "cross"), w)
           [] e.op = "side" -> LET t == Side(e.a, e.b, Hom(e.x)) w == IF e.ccw THEN t <= 0 ELSE t >= 0 IN V(B(o.v = w, "side"), w)
           [] e.op = "clip" -> V(ClipBad(e.A, e.B, o.v), Corners(Common(e.A, e.B)))
           [] e.op = "tol" -> V(B(o.v = Tol(e), "tol"), Tol(e))

----------------------------------------------------------------------------
G == {<<x, y>> : x \in 0..2, y \in 0..2}
Ccw(a, b, c) == Side(a, b, Hom(c)) > 0
Tris == {<<a, b, c>> : a \in G, b \in G, c \in G}
Subj == {t \in Tris : Ccw(t[1], t[2], t[3]) /\ t[1][1] * 3 + t[1][2] <= t[2][1] * 3 + t[2][2] /\ t[1][1] * 3 + t[1][2] <= t[3][1] * 3 + t[3][2]}
Clips == {<<<<0, 0>>, <<2, 0>>, <<2, 1>>, <<0, 1>>>>, <<<<0, 0>>, <<2, 1>>, <<1, 2>>>>, <<<<1, 0>>, <<2, 1>>, <<1, 2>>, <<0, 1>>>>, <<<<2, 0>>, <<2, 2>>, <<0, 2>>>>,
          <<<<3, 0>>, <<4, 0>>, <<3, 1>>>>, <<<<-1, -1>>, <<3, -1>>, <<3, 3>>, <<-1, 3>>>>, <<<<1, 1>>, <<2, 1>>, <<2, 2>>, <<1, 2>>>>}
MCStart == {[h |-> 0]}
MCOps(s) == {[op |-> "clip", A |-> a, B |-> b] : a \in Subj, b \in Clips}
     \cup {[op |-> "bins", e0 |-> e0, de |-> de, n |-> n, x |-> [i \in 1..21 |-> i - 11]] : e0 \in {-3, 0, 2}, de \in {-3, -2, -1, 0, 1, 2, 3}, n \in 0..4}
     \cup {[op |-> "conn", m |-> m, n |-> n, p |-> p, ll |-> l] : m \in 1..4, n \in 1..4, p \in 1..3, l \in BOOLEAN}
     \cup {[op |-> "tol", b |-> b, w |-> w, sub |-> k, adj |-> a, one |-> o] : b \in 1..7, w \in 1..12, k \in 1..2, a \in BOOLEAN, o \in BOOLEAN}
     \cup {[op |-> "cross", a |-> a, b |-> b, c |-> c, d |-> d] : a \in {<<0, 0>>, <<1, 2>>}, b \in G \ {<<0, 0>>, <<1, 2>>}, c \in {<<2, 0>>, <<0, 1>>}, d \in G \ {<<2, 0>>, <<0, 1>>}}
     \cup {[op |-> "side", a |-> a, b |-> b, x |-> x, ccw |-> w] : a \in {<<0, 0>>, <<1, 2>>}, b \in {<<2, 1>>, <<0, 2>>}, x \in G, w \in BOOLEAN}
     \cup {[op |-> "area", P |-> t] : t \in Subj \cup Clips}
MCApply(s, e) == s
MCSafe(s) == TRUE
MCSafeStep(s, e) ==
    /\ e.op = "clip" => Common(e.A, e.B) = Common(e.B, e.A)
    /\ (e.op = "bins" /\ e.de # 0) => \A x \in Rng(e.x) : (Bins(e.e0, e.de, e.n, x) # {}) = (e.n > 0 /\ (e.e0 - x) * (e.e0 + e.n * e.de - x) <= 0)
    \* every inner edge of the mesh belongs to two cells
    /\ e.op = "conn" => \A a, b \in 0..(e.m * e.n - 1) : (a # b) => Around(e.n, a \div e.n, a % e.n) # Around(e.n, b \div e.n, b % e.n)
    /\ e.op = "tol" => LET t == Tol(e) IN t.grid[1] = -t.grid[t.ndiv + 1] /\ (\A k \in 1..t.ndiv : t.grid[k] < t.grid[k + 1])
=============================================================================
