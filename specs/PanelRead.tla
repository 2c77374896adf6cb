------------------------------ MODULE PanelRead -----------------------------
(***************************************************************************)
(* C19.  Reading images at points of a panel.  Lengths in sixteenths of a    *)
(* pixel as in Panel; interpolated values in 1/256ths of a count.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL P == INSTANCE Panel

Clamp(v, n) == IF v < 0 THEN 0 ELSE IF v > 16 * (n - 1) THEN 16 * (n - 1) ELSE v
Up(k, n) == IF k + 1 > n - 1 THEN n - 1 ELSE k + 1
\* img is a sequence of rows
Bilinear(s, img, x, y) ==
    LET i == Clamp(P!ToI(s, y), s.rows) j == Clamp(P!ToJ(s, x), s.cols)
        a == i \div 16 b == j \div 16 u == i % 16 v == j % 16
        px(m, n) == img[m + 1][n + 1] IN
    ((16 - u) * (16 - v) * px(a, b)) + (u * (16 - v) * px(Up(a, s.rows), b)) + ((16 - u) * v * px(a, Up(b, s.cols))) + (u * v * px(Up(a, s.rows), Up(b, s.cols)))
Fill(e) == IF e.nan THEN "fill" ELSE 0
\* values are tagged so that a fill is not a number
Num(v) == [t |-> "n", v |-> v]
FillV(e) == IF e.nan THEN [t |-> "fill"] ELSE Num(0)
BilinearOf(s, img, e, p) == {IF on THEN Num(Bilinear(s, img, p[1], p[2])) ELSE FillV(e) : on \in P!OnPanel(s, p[1], p[2], TRUE)}
NearestOf(s, img, e, p) == UNION {IF on THEN {Num(256 * img[c[1] + 1][c[2] + 1]) : c \in {q \in P!CellsAt(s, p[1], p[2]) : P!Valid(s, q)}} ELSE {FillV(e)} : on \in P!OnPanel(s, p[1], p[2], TRUE)}
Match(o, w) == Len(o) = Len(w) /\ \A k \in 1..Len(w) : o[k] \in w[k]

\* the part of an image that a region [[r0, r1], [c0, c1]] covers
Crop(img, r) == [i \in 1..(r[1][2] - r[1][1]) |-> [j \in 1..(r[2][2] - r[2][1]) |-> img[r[1][1] + i][r[2][1] + j]]]
\* which entry of a dictionary of images belongs to a panel: its own; else the shared one;
\* else the only one whose name contains the panel's; else its group's
Pick(e) == IF e.own \in e.keys THEN [t |-> "own", key |-> e.own]
           ELSE IF e.shared \in e.keys THEN [t |-> "crop", key |-> e.shared]
           ELSE IF Cardinality(e.like \cap e.keys) = 1 THEN [t |-> "crop", key |-> CHOOSE k \in e.like \cap e.keys : TRUE]
           ELSE IF Cardinality(e.like \cap e.keys) > 1 THEN [t |-> "err"]
           ELSE IF e.group \in e.keys THEN [t |-> "crop", key |-> e.group]
           ELSE [t |-> "err"]
Names(q) == {q[k] : k \in 1..Len(q)}
ImagesOf(e) == LET q == Pick([own |-> "det", shared |-> e.shared, like |-> Names(e.like), group |-> e.group, keys |-> Names(e.keys)]) IN
    IF q.t = "err" THEN [err |-> TRUE]
    ELSE IF q.t = "own" THEN [err |-> FALSE, v |-> e.imgs[q.key]]
    ELSE IF e.roi = <<>> THEN [err |-> TRUE] ELSE [err |-> FALSE, v |-> [k \in 1..Len(e.imgs[q.key]) |-> Crop(e.imgs[q.key][k], e.roi)]]

XBegin(h) == [rows |-> h.rows, cols |-> h.cols, buf |-> h.buf, roi |-> <<>>, img |-> h.img]
XJudge(s, e) ==
    LET o == e.obs V(ok, w) == [st |-> s, bad |-> IF ok THEN {} ELSE {e.op}, want |-> w] IN
    CASE e.op = "crop" -> LET w == ImagesOf(e) IN IF w.err \/ o.k = "err" THEN V(w.err /\ o.k = "err", w) ELSE V(o.v = w.v, w)
      [] OTHER ->
    IF o.k = "err" THEN V(FALSE, "no error")
    ELSE CASE e.op = "bil" -> LET w == [k \in 1..Len(e.xy) |-> BilinearOf(s, s.img, e, e.xy[k])] IN V(Match(o.v, w), w)
           [] e.op = "near" -> LET w == [k \in 1..Len(e.xy) |-> NearestOf(s, s.img, e, e.xy[k])] IN V(Match(o.v, w), w)
           \* patches: the pixel named for a point is one that contains it (o.v: point in 1/16, named pixel)
           [] e.op = "patch" -> V(o.back /\ \A k \in 1..Len(o.v) : LET p == o.v[k] IN
                    IF \A q \in P!CellsAt(s, p[1], p[2]) : P!Valid(s, q) THEN <<p[3], p[4]>> \in P!CellsAt(s, p[1], p[2])
                    ELSE P!OnRect(s, p[1], p[2], -2, -2) \/ ~P!Valid(s, <<p[3], p[4]>>), "the pixel that contains the point")
           \* a pulled patch: pixels (clipped to the panel) and what they read in each frame
           [] e.op = "pull" -> LET px(f, p) == s.img[p[1] + 1][p[2] + 1] + e.step * f IN
                V(\A k \in 1..Len(o.v) : LET p == o.v[k] IN
                        /\ P!Valid(s, <<p.i, p.j>>)
                        /\ \A f \in 1..Len(p.frames) : p.read[f] = px(p.frames[f], <<p.i, p.j>>), "the image's own pixels")

----------------------------------------------------------------------------
Img1 == <<<<0, 7, 100>>, <<33, 2, 64>>>>
MCStart == {[rows |-> 2, cols |-> 3, buf |-> b, roi |-> <<>>, img |-> Img1] : b \in {P!NoBuf, [k |-> "edge", x |-> 8, y |-> 4], [k |-> "mask", m |-> <<<<TRUE, FALSE, TRUE>>, <<TRUE, TRUE, FALSE>>>>]}}
Lat == [k \in 1..(13 * 9) |-> <<((k - 1) \div 9 - 6) * 4, (((k - 1) % 9) - 4) * 4>>]
Fine(a) == [k \in 1..23 |-> <<(k - 12) * 2, a>>]
MCOps(s) == {[op |-> t, xy |-> Lat, nan |-> n] : t \in {"bil", "near"}, n \in BOOLEAN} \cup {[op |-> t, xy |-> Fine(a), nan |-> TRUE] : t \in {"bil", "near"}, a \in {-16, -15, -9, -7, -1, 0, 3, 8, 16, 17}}
MCApply(s, e) == s
MCSafe(s) == \* exact at pixel centres, between the neighbours elsewhere, both readings agree at centres
    /\ \A i \in 0..(s.rows - 1), j \in 0..(s.cols - 1) :
          LET x == P!ToX(s, 16 * j) y == P!ToY(s, 16 * i) IN Bilinear(s, s.img, x, y) = 256 * s.img[i + 1][j + 1] /\ P!CellsAt(s, x, y) = {<<i, j>>}
MCSafeStep(s, e) == \A k \in 1..Len(e.xy) : LET p == e.xy[k] IN P!OnRect(s, p[1], p[2], 0, 0) =>
    LET b == Bilinear(s, s.img, p[1], p[2]) vals == {256 * s.img[i][j] : i \in 1..s.rows, j \in 1..s.cols} IN (\E v \in vals : v <= b) /\ (\E v \in vals : b <= v)
=============================================================================
