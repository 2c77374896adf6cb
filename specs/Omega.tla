------------------------------- MODULE Omega -------------------------------
(***************************************************************************)
(* C03.  Rotation wedges and frames.  Angles are integers in units of       *)
(* 1/scale degree; `turn` is 360 degrees in these units.  The wedge editor   *)
(* is a state machine over a list of wedges; a series splits the per-frame   *)
(* omega intervals into maximal runs and answers lookups.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumN(_)
SumN(ws) == IF ws = <<>> THEN 0 ELSE Head(ws).n + SumN(Tail(ws))

\* python list.insert
PyInsert(s, loc, x) ==
    LET n == Len(s)
        k == IF loc < 0 THEN (IF loc + n < 0 THEN 0 ELSE loc + n) ELSE IF loc > n THEN n ELSE loc
    IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, n)
PopOk(s, i) == i >= -Len(s) /\ i < Len(s)
PyPop(s, i) ==
    LET k == IF i < 0 THEN Len(s) + i ELSE i
    IN SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))

\* per-frame intervals of a wedge [a, b] in n equal steps (n divides b - a)
WFrames(w) == [k \in 1..w.n |-> <<w.a + (k - 1) * ((w.b - w.a) \div w.n),
                                 w.a + k * ((w.b - w.a) \div w.n)>>]
RECURSIVE AllFrames(_)
AllFrames(ws) == IF ws = <<>> THEN <<>> ELSE WFrames(Head(ws)) \o AllFrames(Tail(ws))

----------------------------------------------------------------------------
\* Series: maximal runs of contiguous, equally wide intervals
RECURSIVE Runs(_, _, _)
Runs(om, f, cur) ==          \* cur = [a, b, d, n, f0]; f = next frame (1-based)
    IF f > Len(om) THEN <<cur>>
    ELSE LET d == om[f][2] - om[f][1] IN
         IF d # cur.d \/ om[f][1] # cur.b
         THEN <<cur>> \o Runs(om, f + 1, [a |-> om[f][1], b |-> om[f][2], d |-> d, n |-> 1, f0 |-> f - 1])
         ELSE Runs(om, f + 1, [cur EXCEPT !.b = om[f][2], !.n = @ + 1])
Wedges(om) == Runs(om, 2, [a |-> om[1][1], b |-> om[1][2], d |-> om[1][2] - om[1][1], n |-> 1, f0 |-> 0])
Valid(om) == Len(om) >= 1 /\ \A f \in 1..Len(om) : om[f][2] > om[f][1]

\* lookups use doubled units so that "just below x" is 2x - 1
Covers(w, q2, turn) == (q2 - 2 * w.a) % (2 * turn) < 2 * (w.b - w.a)
StepIn(w, q2, turn) == ((q2 - 2 * w.a) % (2 * turn)) \div (2 * w.d)
Find(ws, q2, turn) ==
    IF \E i \in 1..Len(ws) : Covers(ws[i], q2, turn)
    THEN LET i == CHOOSE i \in 1..Len(ws) : /\ Covers(ws[i], q2, turn)
                                            /\ \A j \in 1..(i - 1) : ~Covers(ws[j], q2, turn)
         IN <<ws[i].f0 + StepIn(ws[i], q2, turn), i - 1>>
    ELSE <<-1, -1>>

Seq0(a, b) == [k \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + k - 1]

\* frames touched by [p, q]: both ends in the series and the range covered by
\* one wedge or by two adjacent ones (modulo a turn)
Range(ws, p2, q2, turn) ==
    LET f == Find(ws, p2, turn) g == Find(ws, q2, turn) IN
    IF f[2] < 0 \/ g[2] < 0 THEN <<>>
    ELSE LET w0 == ws[f[2] + 1] w1 == ws[g[2] + 1] IN
         IF f[2] = g[2] /\ (g[1] > f[1] \/ (g[1] = f[1] /\ p2 <= q2)) THEN Seq0(f[1], g[1])
         ELSE IF (IF w1.a > w0.b THEN w1.a - w0.b ELSE w0.b - w1.a) % turn = 0
              THEN Seq0(f[1], w0.f0 + w0.n - 1) \o Seq0(w1.f0, g[1])
              ELSE <<>>

----------------------------------------------------------------------------
XBegin(h) == [h |-> h, ws |-> <<>>]

Expect(s, e) ==
    LET h == s.h IN
    CASE e.op = "add" -> [k |-> "ok"]
      [] e.op = "del" -> IF PopOk(s.ws, e.i) THEN [k |-> "ok"] ELSE [k |-> "err"]
      [] e.op = "wframes" -> [k |-> "v", v |-> <<SumN(s.ws), Len(s.ws)>>]
      [] e.op = "omegas" -> IF SumN(s.ws) = h.nframes
                            THEN [k |-> "v", v |-> AllFrames(s.ws)] ELSE [k |-> "err"]
      [] e.op = "list" -> [k |-> "v", v |-> [i \in 1..Len(s.ws) |-> <<s.ws[i].a, s.ws[i].b, s.ws[i].n>>]]
      [] e.op = "build" -> IF h.hasom /\ Len(h.om) = h.nframes /\ Valid(h.om)
                           THEN [k |-> "v", v |-> [i \in 1..Len(Wedges(h.om)) |->
                                    LET w == Wedges(h.om)[i] IN <<w.a, w.b, w.n, w.d>>]]
                           ELSE [k |-> "err"]
      [] e.op = "find" -> [k |-> "v", v |-> Find(Wedges(h.om), e.q2, h.turn)]
      [] e.op = "range" -> [k |-> "v", v |-> Range(Wedges(h.om), e.p2, e.q2, h.turn)]
      [] e.op = "series-omegas" -> [k |-> "v", v |-> h.om]

XJudge(s, e) ==
    LET w == Expect(s, e) o == e.obs
        ok == CASE w.k = "ok" -> o.k = "ok"
                [] w.k = "err" -> o.k = "err"
                [] w.k = "v" -> o.k = "v" /\ o.v = w.v
        s2 == CASE e.op = "add" -> [s EXCEPT !.ws = PyInsert(s.ws, IF e.hasloc THEN e.loc ELSE Len(s.ws),
                                                             [a |-> e.a, b |-> e.b, n |-> e.n])]
                [] e.op = "del" -> IF PopOk(s.ws, e.i) THEN [s EXCEPT !.ws = PyPop(s.ws, e.i)] ELSE s
                [] OTHER -> s
    IN [st |-> s2, bad |-> IF ok THEN {} ELSE {e.op}, want |-> w]

----------------------------------------------------------------------------
\* Exploration: every edit history over a small set of wedges (degrees)
Turn == 360
Menu == {[a |-> 0, b |-> 60, n |-> 2], [a |-> 60, b |-> 90, n |-> 1], [a |-> -90, b |-> 0, n |-> 3],
         [a |-> 300, b |-> 420, n |-> 4], [a |-> 90, b |-> 450, n |-> 3]}
MCStart == {<<>>}
MCOps(ws) ==
    {[op |-> "add", a |-> m.a, b |-> m.b, n |-> m.n, hasloc |-> hl, loc |-> l] :
        m \in Menu, hl \in {TRUE}, l \in {0, Len(ws), -1}}
    \cup (IF ws = <<>> THEN {} ELSE {[op |-> "del", i |-> i] : i \in {0, Len(ws) - 1, -1}})
MCApply(ws, o) == IF o.op = "add" THEN PyInsert(ws, o.loc, [a |-> o.a, b |-> o.b, n |-> o.n]) ELSE PyPop(ws, o.i)
MCSafe(ws) ==
    LET om == AllFrames(ws) IN
    /\ Len(om) = SumN(ws)
    /\ om # <<>> =>
        LET sw == Wedges(om) IN
        /\ Valid(om)
        \* the runs partition the frames in order
        /\ SumN(sw) = Len(om)
        /\ \A i \in 1..Len(sw) : sw[i].f0 = SumN(SubSeq(sw, 1, i - 1))
        /\ AllFrames(sw) = om
        \* a frame's own centre is found in it, or in an earlier wedge covering the same angle
        /\ \A f \in 1..Len(om) :
             LET q2 == om[f][1] + om[f][2]
                 r == Find(sw, q2, Turn)
             IN /\ r[1] >= 0
                /\ r[1] > f - 1 => \E g \in 1..Len(sw) : sw[g].b - sw[g].a > Turn
                /\ LET t == om[r[1] + 1] IN (q2 - 2 * t[1]) % (2 * Turn) < 2 * (t[2] - t[1])
        \* an angle is found iff some frame's half-open interval contains it modulo a turn
        /\ \A q \in {-75, 0, 15, 60, 89, 90, 300, 359, 720} :
             (Find(sw, 2 * q, Turn)[1] >= 0) <=>
                (\E f \in 1..Len(om) : (q - om[f][1]) % Turn < om[f][2] - om[f][1])
MCSafeStep(ws, o) == TRUE
=============================================================================
