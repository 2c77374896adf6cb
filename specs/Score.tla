------------------------------- MODULE Score -------------------------------
(***************************************************************************)
(* C15.  Orientation scoring on eta-omega maps and the distribution of      *)
(* tasks over workers.  Angles are integers in 1/1000 degree.  A predicted   *)
(* reflection is <<map number, eta, omega>>.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Turn == 360000
NANV == -1000000
Map(x, off) == ((x - off) % Turn) + off

\* ---------------------------------------------------------------- ranges
Full(rs) == \E i \in 1..Len(rs) : rs[i][2] - rs[i][1] >= Turn
Inside(x, r) == ((x - r[1]) % Turn) < (r[2] - r[1])
InSome(x, rs) == Full(rs) \/ \E i \in 1..Len(rs) : Inside(x, rs[i])
\* two arcs (each shorter than a turn) share more than an end point
Overlap(p, q) == Inside(p[1], q) \/ Inside(q[1], p)
RangesOk(rs) == /\ \A i \in 1..Len(rs) : rs[i][1] < rs[i][2]
                /\ Full(rs) \/ \A i, j \in 1..Len(rs) : i < j => ~Overlap(rs[i], rs[j])

\* ------------------------------------------------------------------ bins
\* number of the bin [edges[i], edges[i+1]) that holds x, 0 if none
Bin(x, edges) == IF x < edges[1] \/ x >= edges[Len(edges)] THEN 0
                 ELSE CHOOSE i \in 1..(Len(edges) - 1) : edges[i] <= x /\ x < edges[i + 1]
NPix(tol, edges) == LET d == edges[2] - edges[1] IN ((2 * tol) + d) \div (2 * d)
Lo(a, d) == IF a - d < 1 THEN 1 ELSE a - d
Hi(a, d, n) == IF a + d > n THEN n ELSE a + d

\* --------------------------------------------------------------- threshold
\* per map, as the rational <<num, den>>, den > 0
Flat(m) == [k \in 1..(Len(m) * Len(m[1])) |-> m[((k - 1) \div Len(m[1])) + 1][((k - 1) % Len(m[1])) + 1]]
RECURSIVE SumUpTo(_, _)
SumUpTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumUpTo(s, k - 1)
NotNan(s) == SelectSeq(s, LAMBDA v : v # NANV)
\* k-th smallest (1-based)
Kth(s, k) == CHOOSE v \in {s[i] : i \in 1..Len(s)} :
                /\ Cardinality({i \in 1..Len(s) : s[i] < v}) < k
                /\ Cardinality({i \in 1..Len(s) : s[i] <= v}) >= k
Med2(s) == LET n == Len(s) IN
           IF n % 2 = 1 THEN 2 * Kth(s, (n + 1) \div 2) ELSE Kth(s, n \div 2) + Kth(s, (n \div 2) + 1)
AutoThr(m) == LET s == NotNan(Flat(m)) n == Len(s) IN
              IF n = 0 THEN <<0, 1>> ELSE <<(2 * SumUpTo(s, n)) + (n * Med2(s)), 4 * n>>
Thr(h, k) == IF h.thr.k = "auto" THEN AutoThr(h.maps[k]) ELSE <<h.thr.v2[k], 2>>
Above(v, t) == v # NANV /\ (v * t[2]) > t[1]

\* ---------------------------------------------------------------- scoring
\* outcome of one predicted reflection: "out", "hit", "miss", "nan", "either"
Outcome(h, t, p) ==
    LET eta == Map(p[2], -180000) ome == Map(p[3], h.ome0)
        i == Bin(ome, h.omeEdges) j == Bin(eta, h.etaEdges)
        di == NPix(h.omeTol, h.omeEdges) dj == NPix(h.etaTol, h.etaEdges)
        m == h.maps[p[1]]
    IN IF ~InSome(eta, h.etaRanges) \/ ~InSome(ome, h.omeRanges) \/ i = 0 \/ j = 0 THEN "out"
       ELSE LET win == {m[a][b] : a \in Lo(i, di)..Hi(i, di, Len(m)), b \in Lo(j, dj)..Hi(j, dj, Len(m[1]))}
                hit == \E v \in win : Above(v, t[p[1]])
            IN IF hit /\ NANV \in win THEN "either"
               ELSE IF hit THEN "hit" ELSE IF NANV \in win THEN "nan" ELSE "miss"
\* tally of a list of predictions: hits, misses, either
RECURSIVE Tally(_, _, _, _)
Tally(h, t, ps, k) ==
    IF k = 0 THEN [h |-> 0, m |-> 0, e |-> 0]
    ELSE LET r == Tally(h, t, ps, k - 1) o == Outcome(h, t, ps[k]) IN
         CASE o = "hit" -> [r EXCEPT !.h = @ + 1]
           [] o = "miss" -> [r EXCEPT !.m = @ + 1]
           [] o = "either" -> [r EXCEPT !.e = @ + 1]
           [] OTHER -> r
\* the score p/q is that of the tally
ScoreOk(y, pq) ==
    \E j \in 0..y.e :
        LET hits == y.h + j tot == y.h + y.m + j IN
        IF tot = 0 THEN pq = <<0, 1>> ELSE pq[2] > 0 /\ (pq[1] * tot) = (hits * pq[2])

HdrOk(h) == RangesOk(h.etaRanges) /\ RangesOk(h.omeRanges)
            /\ (h.thr.k = "list" => Len(h.thr.v2) = Len(h.maps))

\* ------------------------------------------------------------- task split
\* ranges [a, b) covering 0..n-1 once, in order, at most w of them, as even as possible
SplitOk(n, w, v) ==
    /\ Len(v) <= w
    /\ (n = 0) <=> (Len(v) = 0)
    /\ n > 0 => /\ v[1][1] = 0 /\ v[Len(v)][2] = n
                /\ \A i \in 1..(Len(v) - 1) : v[i][2] = v[i + 1][1]
                /\ \A i \in 1..Len(v) : v[i][2] > v[i][1]
                /\ \A i, j \in 1..Len(v) : (v[i][2] - v[i][1]) - (v[j][2] - v[j][1]) <= 1
                /\ Len(v) = (IF n < w THEN n ELSE w)

XBegin(h) == [h |-> h, ok |-> IF h.kind = "score" THEN HdrOk(h) ELSE TRUE,
              t |-> IF h.kind = "score" /\ HdrOk(h) THEN [k \in 1..Len(h.maps) |-> Thr(h, k)] ELSE <<>>]
XJudge(s, e) ==
    LET o == e.obs IN
    CASE e.op = "score" ->
            IF ~s.ok THEN [st |-> s, bad |-> IF o.k = "err" THEN {} ELSE {"range refused"}, want |-> "err"]
            ELSE IF o.k = "err" THEN [st |-> s, bad |-> {"score"}, want |-> "a list of scores"]
            ELSE LET y == [i \in 1..Len(e.preds) |-> Tally(s.h, s.t, e.preds[i], Len(e.preds[i]))]
                     bad == IF Len(o.v) # Len(y) THEN {"one score per orientation"}
                            ELSE IF \A i \in 1..Len(y) : ScoreOk(y[i], o.v[i]) THEN {} ELSE {"score"}
                 IN [st |-> s, bad |-> bad, want |-> y]
      [] e.op = "split" ->
            [st |-> s, bad |-> IF o.k = "v" /\ SplitOk(e.n, e.w, o.v) THEN {} ELSE {"split"}, want |-> "partition"]
      [] e.op = "gather" ->
            \* results in the order of the inputs whatever the order of completion
            LET w == [i \in 1..Len(e.inputs) |-> <<e.inputs[i], e.inputs[i] + e.add>>] IN
            [st |-> s, bad |-> IF o.k = "v" /\ o.v = w THEN {} ELSE {"gather"}, want |-> w]

----------------------------------------------------------------------------
\* Worker pool: tasks are started in order, at most w run, any may finish next
MCStart == {[kind |-> "gather", n |-> n, w |-> w, next |-> IF n < w THEN n ELSE w,
             run |-> 0..((IF n < w THEN n ELSE w) - 1), res |-> <<>>] : n \in 1..4, w \in 1..3}
MCOps(s) == IF s.run = {} THEN {[op |-> "idle"]} ELSE {[op |-> "finish", i |-> i] : i \in s.run}
MCApply(s, op) ==
    IF op.op = "idle" THEN s
    ELSE [s EXCEPT !.run = (@ \ {op.i}) \cup (IF s.next < s.n THEN {s.next} ELSE {}),
                   !.next = IF @ < s.n THEN @ + 1 ELSE @,
                   !.res = Append(@, op.i)]
\* every task is started once, finished once; gathering by index restores the order
Gathered(s) == [i \in 1..s.n |-> CHOOSE k \in 1..Len(s.res) : s.res[k] = i - 1]
MCSafe(s) ==
    /\ Cardinality(s.run) <= s.w
    /\ Len(s.res) + Cardinality(s.run) + (s.n - s.next) = s.n
    /\ \A i, j \in 1..Len(s.res) : i # j => s.res[i] # s.res[j]
    /\ (s.run = {} /\ s.next = s.n) =>
            /\ {s.res[k] : k \in 1..Len(s.res)} = 0..(s.n - 1)
            /\ \A i \in 1..s.n : s.res[Gathered(s)[i]] = i - 1
MCSafeStep(s, op) == TRUE
=============================================================================
