-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* C25.  Eta-omega maps.  A run is a set of panels, each with pixels          *)
(* [b |-> its azimuth bin (0: none), r |-> the reflections whose ring it       *)
(* lies in], and an image (counts per pixel) for every frame; frames lie in   *)
(* wedges <<first step, number of steps>> of a common omega step.  A map has   *)
(* one row per step from the first wedge to the last, one column per bin.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NaN == -1
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Ix(p, r, b) == SelectSeq([k \in 1..Len(p.px) |-> k], LAMBDA k : p.px[k].b = b /\ \E m \in 1..Len(p.px[k].r) : p.px[k].r[m] = r)
\* counts below the threshold are nothing (thr in halves, negative: none)
Count(v, thr) == IF thr >= 0 /\ 2 * v < thr THEN 0 ELSE v
\* cell of one panel
Cell(p, r, f, b, thr) == LET q == Ix(p, r, b) IN IF q = <<>> THEN NaN ELSE SumSeq([k \in 1..Len(q) |-> Count(p.img[f][q[k]], thr)])
\* cell of all panels together
RECURSIVE Merge(_)
Merge(vs) == IF vs = <<>> THEN NaN ELSE LET m == Merge(Tail(vs)) IN IF Head(vs) = NaN THEN m ELSE IF m = NaN THEN Head(vs) ELSE Head(vs) + m
All(s, r, f, b, thr) == Merge([n \in 1..Len(s.panels) |-> Cell(s.panels[n], r, f, b, thr)])
\* rows
First(s) == s.wedges[1][1]
Stop(s) == LET w == s.wedges[Len(s.wedges)] IN w[1] + w[2]
NRows(s) == Stop(s) - First(s)
RECURSIVE Before(_, _)
Before(s, n) == IF n = 1 THEN 0 ELSE s.wedges[n - 1][2] + Before(s, n - 1)
\* the frame of a row (0: not measured)
FrameOf(s, k) == LET c == First(s) + k - 1 ws == {n \in 1..Len(s.wedges) : c >= s.wedges[n][1] /\ c < s.wedges[n][1] + s.wedges[n][2]} IN
    IF ws = {} THEN 0 ELSE LET n == CHOOSE n \in ws : TRUE IN Before(s, n) + c - s.wedges[n][1] + 1
NFrames(s) == Before(s, Len(s.wedges) + 1)
\* reflections are numbered from 0; the shown ones
Shown(s) == SelectSeq([k \in 1..Len(s.excl) |-> k - 1], LAMBDA k : ~s.excl[k + 1])
Ids(s, e) == IF e.active = <<>> THEN Shown(s) ELSE e.active
Valid(s, e) == \A k \in 1..Len(e.active) : e.active[k] \in 0..(Len(s.excl) - 1) /\ ~s.excl[e.active[k] + 1]
Open(s, r, b) == \E k \in 1..Len(s.amb) : s.amb[k][1] = r /\ s.amb[k][2] = b

Full(s, e) == LET ids == Ids(s, e) IN [i \in 1..Len(ids) |-> [k \in 1..NRows(s) |-> [b \in 1..s.nb |->
                 IF FrameOf(s, k) = 0 THEN NaN ELSE All(s, ids[i], FrameOf(s, k), b, e.thr)]]]
Polar(s, e) == LET ids == Ids(s, e) IN [n \in 1..Len(s.panels) |-> [i \in 1..Len(ids) |-> [f \in 1..NFrames(s) |-> [b \in 1..s.nb |-> Cell(s.panels[n], ids[i], f, b, e.thr)]]]]
SameMap(s, ids, got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : Len(got[i]) = Len(want[i]) /\ \A k \in 1..Len(want[i]) :
        Len(got[i][k]) = Len(want[i][k]) /\ \A b \in 1..Len(want[i][k]) : got[i][k][b] = want[i][k][b] \/ Open(s, ids[i], b)
Halves(n) == [k \in 1..n |-> 2 * k - 1]
Wholes(n) == [k \in 1..(n + 1) |-> 2 * (k - 1)]

XBegin(h) == h
XJudge(s, e) ==
    LET o == e.obs V(bad, w) == [st |-> s, bad |-> bad, want |-> w]
        If(ok, n) == IF ok THEN {} ELSE {n} IN
    IF ~Valid(s, e) THEN V(If(o.k = "err", "not shown"), "refused")
    ELSE IF o.k = "err" THEN V({"error"}, "maps")
    ELSE CASE e.op = "polar" -> LET w == Polar(s, e) IN
            V(If(Len(o.m) = Len(w) /\ \A n \in 1..Len(w) : SameMap(s, Ids(s, e), o.m[n], w[n]), "cells of one panel") \cup If(o.etaEdges = Wholes(s.nb), "bins"), w)
      [] OTHER -> LET w == Full(s, e) IN
            V(If(o.ids = Ids(s, e), "reflections") \cup If(SameMap(s, Ids(s, e), o.m, w), "cells")
              \cup If(o.ome = Halves(NRows(s)) /\ o.omeEdges = Wholes(NRows(s)), "omegas")
              \cup If(o.etas = Halves(s.nb) /\ o.etaEdges = Wholes(s.nb), "bins") \cup If(o.same, "inputs or plane data changed"), w)

----------------------------------------------------------------------------
\* a small world to check the model itself: two panels of three pixels
Px(b, r) == [b |-> b, r |-> r]
P1 == [px |-> <<Px(1, <<0>>), Px(1, <<0, 1>>), Px(2, <<1>>)>>, img |-> <<<<3, 4, 5>>, <<0, 9, 1>>, <<7, 0, 2>>>>]
P2 == [px |-> <<Px(2, <<0>>), Px(0, <<0>>), Px(2, <<1>>)>>, img |-> <<<<1, 1, 6>>, <<2, 2, 0>>, <<8, 5, 3>>>>]
MCStart == {[panels |-> q, wedges |-> w, excl |-> x, nb |-> 3, amb |-> <<>>] :
              q \in {<<P1>>, <<P2>>, <<P1, P2>>, <<P2, P1>>}, x \in [1..2 -> BOOLEAN] \ {<<TRUE, TRUE>>},
              w \in {<<<<0, 3>>>>, <<<<0, 1>>, <<2, 2>>>>, <<<<5, 2>>, <<9, 1>>>>, <<<<-2, 1>>, <<0, 1>>, <<1, 1>>>>}}
MCOps(s) == {[op |-> t, active |-> a, thr |-> n, workers |-> w] : t \in {"polar", "maps", "archive"}, a \in {<<>>, <<0>>, <<1>>, <<1, 0>>, <<0, 0>>, <<7>>}, n \in {-1, 0, 5, 6, 12}, w \in {1, 4}}
MCApply(s, e) == s
Ring(p, r) == {k \in 1..Len(p.px) : p.px[k].b # 0 /\ \E m \in 1..Len(p.px[k].r) : p.px[k].r[m] = r}
RECURSIVE SumSet(_, _, _)
SumSet(p, f, ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE k \in ks : TRUE IN p.img[f][k] + SumSet(p, f, ks \ {k})
MCSafe(s) ==
    \* every count of a ring is in the map once, whatever the order of the panels
    /\ \A f \in 1..NFrames(s), r \in 0..1 :
        /\ SumSeq([b \in 1..s.nb |-> LET v == All(s, r, f, b, -1) IN IF v = NaN THEN 0 ELSE v]) = SumSeq([n \in 1..Len(s.panels) |-> SumSet(s.panels[n], f, Ring(s.panels[n], r))])
        /\ \A b \in 1..s.nb : All(s, r, f, b, -1) = All([s EXCEPT !.panels = [n \in 1..Len(s.panels) |-> s.panels[Len(s.panels) + 1 - n]]], r, f, b, -1)
    \* every frame has one row
    /\ \A f \in 1..NFrames(s) : Cardinality({k \in 1..NRows(s) : FrameOf(s, k) = f}) = 1
MCSafeStep(s, e) == Valid(s, e) => LET w == Full(s, e) IN
    \A i \in 1..Len(w), k \in 1..NRows(s), b \in 1..s.nb : w[i][k][b] # NaN => w[i][k][b] <= All(s, Ids(s, e)[i], FrameOf(s, k), b, -1)
=============================================================================
