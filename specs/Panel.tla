------------------------------- MODULE Panel --------------------------------
(***************************************************************************)
(* C12.  Bookkeeping of a flat panel.                                        *)
(* Lengths are in sixteenths of a pixel: x in columns, y in rows (up), so a   *)
(* pixel (i, j) reads (16 i, 16 j) and the panel is 16 cols x 16 rows.        *)
(* State: [rows, cols, buf, roi];                                             *)
(*   buf: [k |-> "none"] | [k |-> "edge", x, y] | [k |-> "mask", m]            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoBuf == [k |-> "none"]
\* pixel coordinates <-> positions
ToX(s, j) == j + 8 - 8 * s.cols
ToY(s, i) == 8 * s.rows - 8 - i
ToI(s, y) == 8 * s.rows - 8 - y
ToJ(s, x) == x - 8 + 8 * s.cols
\* pixels whose area contains a coordinate, border included
Cells(v) == {k \in {v \div 16, v \div 16 + 1} : 16 * k - 8 <= v /\ v <= 16 * k + 8}
CellsAt(s, x, y) == {<<i, j>> : i \in Cells(ToI(s, y)), j \in Cells(ToJ(s, x))}
OnRect(s, x, y, bx, by) == LET X == 8 * s.cols - bx Y == 8 * s.rows - by IN -X <= x /\ x <= X /\ -Y <= y /\ y <= Y
Valid(s, p) == p[1] >= 0 /\ p[1] < s.rows /\ p[2] >= 0 /\ p[2] < s.cols
\* TRUE: on the panel; FALSE: off; both where a mask changes at that point
OnPanel(s, x, y, edges) ==
    IF ~edges \/ s.buf.k = "none" THEN {OnRect(s, x, y, 0, 0)}
    ELSE IF s.buf.k = "edge" THEN {OnRect(s, x, y, s.buf.x, s.buf.y)}
    ELSE {IF Valid(s, p) THEN s.buf.m[p[1] + 1][p[2] + 1] ELSE FALSE : p \in CellsAt(s, x, y)}
Hit(n, v, b) == v = 8 * n - b \/ -v = 8 * n - b
\* the mask that margins amount to: pixels whose centre is on the panel
\* (a centre on the line of the margin may be either)
AsMask(s, i, j) == CASE s.buf.k = "none" -> {TRUE} [] s.buf.k = "mask" -> {s.buf.m[i + 1][j + 1]}
                     [] OTHER -> LET x == ToX(s, 16 * j) y == ToY(s, 16 * i) IN
                        {OnRect(s, x, y, s.buf.x, s.buf.y), OnRect(s, x, y, s.buf.x, s.buf.y) /\ ~(Hit(s.cols, x, s.buf.x) \/ Hit(s.rows, y, s.buf.y))}
                     

\* --- sub-panels ---------------------------------------------------------
\* rect [[r0, r1], [c0, c1]]: a sub-panel of those pixels, whose pixel (i, j)
\* is the parent's (r0 + i, c0 + j)
SubState(s, rect) == [rows |-> rect[1][2] - rect[1][1], cols |-> rect[2][2] - rect[2][1],
                      buf |-> IF s.buf.k = "mask" THEN [k |-> "mask", m |-> [i \in 1..(rect[1][2] - rect[1][1]) |-> [j \in 1..(rect[2][2] - rect[2][1]) |-> s.buf.m[rect[1][1] + i][rect[2][1] + j]]]] ELSE s.buf]
\* where the parent has the sub-panel's corner pixel centres
CornersOf(s, rect) == LET f(i, j) == <<ToX(s, 16 * j), ToY(s, 16 * i)>> IN
    <<f(rect[1][1], rect[2][1]), f(rect[1][2] - 1, rect[2][1]), f(rect[1][2] - 1, rect[2][2] - 1), f(rect[1][1], rect[2][2] - 1)>>
Tiles(nr, nc, br, bc, gr, gc) == [k \in 1..(nr * nc) |-> LET i == (k - 1) \div nc j == (k - 1) % nc IN
    <<<<i * (br + gr), i * (br + gr) + br>>, <<j * (bc + gc), j * (bc + gc) + bc>>>>]

\* --- the panel as a state machine ---------------------------------------
SetOp(s, e) == CASE e.op = "rows" -> [s EXCEPT !.rows = e.v, !.buf = IF @.k = "mask" THEN NoBuf ELSE @]
                 [] e.op = "cols" -> [s EXCEPT !.cols = e.v, !.buf = IF @.k = "mask" THEN NoBuf ELSE @]
                 [] e.op = "buf" -> [s EXCEPT !.buf = e.buf]
                 [] e.op = "roi" -> [s EXCEPT !.roi = e.at]
                 [] OTHER -> s
Geo(s) == [shape |-> <<s.rows, s.cols>>,
           ul |-> <<-8 * s.cols, 8 * s.rows>>, ll |-> <<-8 * s.cols, -8 * s.rows>>, lr |-> <<8 * s.cols, -8 * s.rows>>, ur |-> <<8 * s.cols, 8 * s.rows>>,
           dims |-> <<16 * s.rows, 16 * s.cols>>,
           rpv |-> [i \in 1..s.rows |-> ToY(s, 16 * (i - 1))], cpv |-> [j \in 1..s.cols |-> ToX(s, 16 * (j - 1))],
           rev |-> [i \in 1..(s.rows + 1) |-> 8 * s.rows - 16 * (i - 1)], cev |-> [j \in 1..(s.cols + 1) |-> 16 * (j - 1) - 8 * s.cols],
           roi |-> IF s.roi = <<>> THEN <<>> ELSE <<<<s.roi[1], s.roi[1] + s.rows>>, <<s.roi[2], s.roi[2] + s.cols>>>>]
XBegin(h) == [rows |-> h.rows, cols |-> h.cols, buf |-> h.buf, roi |-> h.roi]
XJudge(s0, e) ==
    LET s == SetOp(s0, e) o == e.obs V(ok, w) == [st |-> s, bad |-> IF ok THEN {} ELSE {e.op}, want |-> w] IN
    IF o.k = "err" THEN V(FALSE, "no error")
    ELSE CASE e.op \in {"rows", "cols", "buf", "roi", "pitch"} -> V(TRUE, 0)
           [] e.op = "geo" -> V(o.v = Geo(s) /\ o.grid, Geo(s))
           [] e.op = "p2c" -> LET w == [k \in 1..Len(e.ij) |-> <<ToX(s, e.ij[k][2]), ToY(s, e.ij[k][1])>>] IN V(o.v = w, w)
           [] e.op = "c2p" -> LET w == [k \in 1..Len(e.xy) |-> <<ToI(s, e.xy[k][2]), ToJ(s, e.xy[k][1])>>] IN V(o.v = w, w)
           [] e.op = "c2px" -> LET w == [k \in 1..Len(e.xy) |-> CellsAt(s, e.xy[k][1], e.xy[k][2])] IN V(Len(o.v) = Len(w) /\ \A k \in 1..Len(w) : o.v[k] \in w[k], w)
           [] e.op = "clip" -> LET w == [k \in 1..Len(e.xy) |-> OnPanel(s, e.xy[k][1], e.xy[k][2], e.edges)] IN
                V(Len(o.on) = Len(w) /\ (\A k \in 1..Len(w) : o.on[k] \in w[k]) /\ o.xy = SelectSeq([k \in 1..Len(w) |-> <<e.xy[k][1], e.xy[k][2], k>>], LAMBDA p : o.on[p[3]]), w)
           [] e.op = "as2d" -> V(Len(o.v) = s.rows /\ \A i \in 1..s.rows : Len(o.v[i]) = s.cols /\ \A j \in 1..s.cols : o.v[i][j] \in AsMask(s, i - 1, j - 1), 0)
           [] e.op = "tiles" -> LET w == Tiles(e.n[1], e.n[2], e.base[1], e.base[2], e.gap[1], e.gap[2]) IN V(o.v = w /\ o.labels, w)
           [] e.op = "chunk" -> LET w == [k \in 1..Len(e.rects) |-> [st |-> SubState(s, e.rects[k]), at |-> CornersOf(s, e.rects[k]), roi |-> IF e.roi THEN <<e.rects[k][1], e.rects[k][2]>> ELSE <<>>]]
                IN V(o.v = w /\ o.same, w)

----------------------------------------------------------------------------
M1 == <<<<TRUE, FALSE, TRUE>>, <<TRUE, TRUE, FALSE>>>>
MCStart == {[rows |-> r, cols |-> c, buf |-> b, roi |-> <<>>] : r \in 1..3, c \in 2..3, b \in {NoBuf, [k |-> "edge", x |-> 16, y |-> 4], [k |-> "edge", x |-> 0, y |-> 40]}}
           \cup {[rows |-> 2, cols |-> 3, buf |-> [k |-> "mask", m |-> M1], roi |-> <<5, 7>>]}
Pts(s) == [k \in 1..81 |-> LET a == (k - 1) \div 9 b == (k - 1) % 9 IN <<(a - 4) * (2 * s.cols + 1), (b - 4) * (2 * s.rows + 1)>>]
Lat(s) == [k \in 1..49 |-> <<((k - 1) \div 7 - 3) * 4 * s.cols, (((k - 1) % 7) - 3) * 4 * s.rows>>]
MCOps(s) == {[op |-> "geo"], [op |-> "as2d"], [op |-> "clip", xy |-> Pts(s), edges |-> TRUE], [op |-> "clip", xy |-> Lat(s), edges |-> TRUE], [op |-> "clip", xy |-> Lat(s), edges |-> FALSE],
             [op |-> "c2p", xy |-> Pts(s)], [op |-> "c2px", xy |-> Pts(s)], [op |-> "c2px", xy |-> Lat(s)], [op |-> "p2c", ij |-> Pts(s)]}
            \cup {[op |-> "rows", v |-> v] : v \in {2, 5}} \cup {[op |-> "cols", v |-> v] : v \in {2, 4}} \cup {[op |-> "roi", at |-> <<1, 2>>], [op |-> "roi", at |-> <<>>]}
            \cup {[op |-> "buf", buf |-> b] : b \in {NoBuf, [k |-> "edge", x |-> 8, y |-> 24], [k |-> "mask", m |-> [i \in 1..s.rows |-> [j \in 1..s.cols |-> (i + j) % 2 = 0]]]}}
            \cup {[op |-> "tiles", n |-> <<a, b>>, base |-> <<2, 3>>, gap |-> <<g, 1 - g>>] : a \in 1..2, b \in 1..3, g \in 0..1}
            \cup {[op |-> "chunk", rects |-> <<<<<<a, b>>, <<c, d>>>>>>, roi |-> r] : a \in {0}, b \in {s.rows}, c \in 0..1, d \in {2}, r \in BOOLEAN}
MCApply(s, e) == SetOp(s, e)
\* laws: the maps invert each other, every point of the panel lies in a pixel, tiles are disjoint and cover
MCSafe(s) == /\ \A v \in {-20, -8, 0, 3, 8, 24, 100} : ToI(s, ToY(s, v)) = v /\ ToJ(s, ToX(s, v)) = v
             /\ \A x \in {-8 * s.cols, -1, 0, 7, 8 * s.cols}, y \in {-8 * s.rows, 0, 5, 8 * s.rows} :
                   OnRect(s, x, y, 0, 0) => \E p \in CellsAt(s, x, y) : Valid(s, p)
             /\ (s.buf.k = "mask") => Len(s.buf.m) = s.rows /\ Len(s.buf.m[1]) = s.cols
MCSafeStep(s, e) == /\ (e.op = "tiles" /\ e.gap = <<0, 0>>) =>
                         LET t == Tiles(e.n[1], e.n[2], e.base[1], e.base[2], 0, 0) IN
                         \A i \in 0..(e.n[1] * e.base[1] - 1), j \in 0..(e.n[2] * e.base[2] - 1) :
                            Cardinality({k \in 1..Len(t) : t[k][1][1] <= i /\ i < t[k][1][2] /\ t[k][2][1] <= j /\ j < t[k][2][2]}) = 1
                    /\ (e.op = "chunk") => LET r == e.rects[1] c == CornersOf(s, r) q == SubState(s, r) IN
                         c[3][1] - c[1][1] = 16 * (q.cols - 1) /\ c[1][2] - c[3][2] = 16 * (q.rows - 1)
=============================================================================
