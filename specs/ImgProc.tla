------------------------------ MODULE ImgProc ------------------------------
(***************************************************************************)
(* C01.  A processed image series: layers of (operation list, frame list)   *)
(* over a source series.  Structured like the code: a layer maps a frame    *)
(* number through its frame list, fetches that frame from the layer below   *)
(* and folds its operation list over it, in order.                          *)
(***************************************************************************)
EXTENDS Img

----------------------------------------------------------------------------
\* one operation
ImOp(im, o) ==
    CASE o.k = "flip" -> Flip(im, o.how)
      [] o.k = "dark" -> Dark(im, o.img)
      [] o.k = "darks" -> Dark(im, [im EXCEPT !.px = [k \in 1..Len(im.px) |-> o.v]])
      [] o.k = "rectangle" -> Crop(im, o.a, o.b, o.p, o.q)
      [] o.k = "add" -> LET F(x) == x + o.v IN MapPx(im, F)
      [] o.k = "add-row" -> InsRow(im, o.v)
      [] o.k = "add-column" -> InsCol(im, o.v)
      [] o.k = "user" -> LET F(x) == 2 * x + 1 IN MapPx(im, F)

RECURSIVE Fold(_, _)
Fold(im, ops) == IF ops = <<>> THEN im ELSE Fold(ImOp(im, Head(ops)), Tail(ops))

\* header: [src |-> <<image,...>>, layers |-> <<[ops, frames, hasfl], ...>>]
RECURSIVE SLen(_, _)
SLen(h, d) == IF d = 0 THEN Len(h.src)
              ELSE IF h.layers[d].hasfl THEN Len(h.layers[d].frames) ELSE SLen(h, d - 1)

\* python index on a sequence of n entries: -n..n-1
InRange(i, n) == i >= -n /\ i < n
Norm(i, n) == IF i < 0 THEN n + i ELSE i

RECURSIVE FrameOf(_, _, _)
FrameOf(h, d, i) ==
    IF d = 0 THEN h.src[Norm(i, Len(h.src)) + 1]
    ELSE LET ly == h.layers[d]
             below == IF ly.hasfl THEN ly.frames[Norm(i, Len(ly.frames)) + 1] ELSE i
         IN Fold(FrameOf(h, d - 1, below), ly.ops)

\* python range positions of a slice [a,b,s] resolved by the driver: an
\* explicit list of kept 0-based rows and columns
Pick(im, rows, cols) ==
    LET F(i, j) == At(im, rows[i + 1], cols[j + 1]) IN Mk(Len(rows), Len(cols), F)

SameImg(o, im) == o.k = "ok" /\ o.shape = <<im.r, im.c>> /\ o.data = im.px

XBegin(h) == h

Expect(h, e) ==
    LET d == e.d n == SLen(h, d) IN
    CASE e.op = "len" -> [k |-> "n", v |-> n]
      [] e.op \in {"get", "scribble"} ->
            IF InRange(e.i, n) THEN [k |-> "im", im |-> FrameOf(h, d, e.i)] ELSE [k |-> "err"]
      [] e.op = "pick" ->
            IF InRange(e.i, n) THEN [k |-> "im", im |-> Pick(FrameOf(h, d, e.i), e.rows, e.cols)]
            ELSE [k |-> "err"]
      [] e.op = "region" -> [k |-> "im", im |-> Crop(FrameOf(h, d, e.i), e.a, e.b, e.p, e.q)]
      [] e.op = "iter" -> [k |-> "ims", ims |-> [i \in 1..n |-> FrameOf(h, d, i - 1)]]
      [] e.op = "shape" -> LET im == FrameOf(h, d, 0) IN [k |-> "n2", v |-> <<im.r, im.c>>]
      [] e.op = "src" -> [k |-> "ims", ims |-> h.src]
      [] e.op = "meta" -> [k |-> "seq", v |-> e.want]

XJudge(h, e) ==
    LET w == Expect(h, e) o == e.obs
        ok == CASE w.k = "err" -> o.k = "err"
                [] w.k = "n" -> o.k = "n" /\ o.v = w.v
                [] w.k = "n2" -> o.k = "n2" /\ o.v = w.v
                [] w.k = "seq" -> o.k = "seq" /\ o.v = w.v
                [] w.k = "im" -> SameImg(o, w.im)
                [] w.k = "ims" -> /\ o.k = "ims" /\ Len(o.v) = Len(w.ims)
                                  /\ \A i \in 1..Len(w.ims) : SameImg(o.v[i], w.ims[i])
    IN [st |-> h, bad |-> IF ok THEN {} ELSE {e.op}, want |-> IF ok THEN [k |-> "-"] ELSE w]

----------------------------------------------------------------------------
\* Exploration: build an operation list step by step on a small image.
BaseImg == [r |-> 2, c |-> 3, px |-> <<1, 2, 3, 4, 5, 6>>]
MCStart == {[im |-> BaseImg, dk |-> FALSE]}
Ramp(im) == [im EXCEPT !.px = [k \in 1..Len(im.px) |-> (k * 3) % 5]]
MCOps(s) ==
    {[k |-> "flip", how |-> f] : f \in {"v", "h", "vh", "t", "r90", "r270"}}
    \cup {[k |-> "dark", img |-> Ramp(s.im)], [k |-> "darks", v |-> 3],
          [k |-> "add", v |-> -2], [k |-> "user"],
          [k |-> "rectangle", a |-> 0, b |-> 2, p |-> 1, q |-> 3],
          [k |-> "rectangle", a |-> 1, b |-> 9, p |-> 0, q |-> 2],
          [k |-> "add-row", v |-> 1], [k |-> "add-column", v |-> 0],
          [k |-> "add-column", v |-> s.im.c]}
    \cup (IF s.im.r > 0 THEN {[k |-> "add-row", v |-> -1]} ELSE {})
MCApply(s, o) == [im |-> ImOp(s.im, o), dk |-> o.k \in {"dark", "darks"}]

\* model-level properties: shapes stay consistent, dark subtraction never
\* yields negatives, the flips form the dihedral group of the rectangle, and
\* cropping commutes with flipping on the mirrored rectangle
MCSafe(s) ==
    LET im == s.im IN
    /\ WellFormed(im)
    /\ s.dk => \A k \in 1..Len(im.px) : im.px[k] >= 0
    /\ RotCCW(RotCW(im)) = im
    /\ RotCCW(RotCCW(im)) = Rot180(im)
    /\ Transp(Transp(im)) = im
    /\ FlipLR(Transp(im)) = RotCW(im)
    /\ RotCCW(RotCCW(RotCCW(im))) = RotCW(im)
    /\ Crop(im, 0, im.r, 0, im.c) = im
    /\ (im.c >= 2) => FlipLR(Crop(im, 0, im.r, 0, im.c - 1)) = Crop(FlipLR(im), 0, im.r, 1, im.c)
MCSafeStep(s, o) ==
    LET t == ImOp(s.im, o) IN
    /\ (o.k = "flip" => Len(t.px) = Len(s.im.px)
                        /\ {t.px[k] : k \in 1..Len(t.px)} = {s.im.px[k] : k \in 1..Len(s.im.px)})
    /\ (o.k = "add-row" => t.r = s.im.r + 1 /\ t.c = s.im.c)
    /\ (o.k = "add-column" => t.c = s.im.c + 1 /\ t.r = s.im.r)
=============================================================================
