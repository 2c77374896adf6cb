-------------------------------- MODULE Img --------------------------------
(* Images as records [r |-> rows, c |-> cols, px |-> row-major sequence].    *)
EXTENDS Integers, Sequences, FiniteSets

At(im, i, j) == im.px[i * im.c + j + 1]          \* 0-based row, column
Mk(r, c, f(_, _)) == [r |-> r, c |-> c,
                      px |-> [k \in 1..(r * c) |-> f((k - 1) \div c, (k - 1) % c)]]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* python slice start/stop with step 1 on length n, non negative bounds
Lo(a, n) == Min2(a, n)
Hi(b, n) == Min2(b, n)
SliceLen(a, b, n) == Max2(0, Hi(b, n) - Lo(a, n))

\* crop rows [a,b) and columns [p,q)
Crop(im, a, b, p, q) ==
    LET r == SliceLen(a, b, im.r)
        c == SliceLen(p, q, im.c)
        F(i, j) == At(im, Lo(a, im.r) + i, Lo(p, im.c) + j)
    IN Mk(r, c, F)

FlipLR(im) == LET F(i, j) == At(im, i, im.c - 1 - j) IN Mk(im.r, im.c, F)
FlipUD(im) == LET F(i, j) == At(im, im.r - 1 - i, j) IN Mk(im.r, im.c, F)
Transp(im) == LET F(i, j) == At(im, j, i) IN Mk(im.c, im.r, F)
Rot180(im) == FlipLR(FlipUD(im))
RotCCW(im) == FlipUD(Transp(im))    \* quarter turn counter-clockwise
RotCW(im)  == FlipLR(Transp(im))    \* quarter turn clockwise

Flip(im, how) ==
    CASE how \in {"y", "v"} -> FlipLR(im)
      [] how \in {"x", "h"} -> FlipUD(im)
      [] how \in {"vh", "hv", "r180"} -> Rot180(im)
      [] how \in {"t", "T"} -> Transp(im)
      [] how \in {"ccw90", "r90"} -> RotCCW(im)
      [] how \in {"cw90", "r270"} -> RotCW(im)
      [] OTHER -> im

MapPx(im, f(_)) == [im EXCEPT !.px = [k \in 1..Len(im.px) |-> f(im.px[k])]]

Dark(im, d) == [im EXCEPT !.px = [k \in 1..Len(im.px) |-> Max2(0, im.px[k] - d.px[k])]]

\* numpy insert position: negative counts from the end
InsPos(k, n) == IF k < 0 THEN n + k ELSE k
InsRow(im, k0) ==
    LET k == InsPos(k0, im.r)
        F(i, j) == IF i = k THEN 0 ELSE IF i < k THEN At(im, i, j) ELSE At(im, i - 1, j)
    IN Mk(im.r + 1, im.c, F)
InsCol(im, k0) ==
    LET k == InsPos(k0, im.c)
        F(i, j) == IF j = k THEN 0 ELSE IF j < k THEN At(im, i, j) ELSE At(im, i, j - 1)
    IN Mk(im.r, im.c + 1, F)

WellFormed(im) == im.r >= 0 /\ im.c >= 0 /\ Len(im.px) = im.r * im.c
=============================================================================
