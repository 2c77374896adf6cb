------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* C04.  Aggregate images over the first nf frames, and their progressive   *)
(* versions.  A frame is a row-major sequence of integers; header:          *)
(* [frames, r, c].  Averages are compared as sums (scaled by nf), and        *)
(* percentiles scaled by 100.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NF(h, nf) == IF nf > 0 /\ nf < Len(h.frames) THEN nf ELSE Len(h.frames)
NPx(h) == h.r * h.c

Vals(h, p, n) == [i \in 1..n |-> h.frames[i][p]]
RECURSIVE FoldMax(_), FoldMin(_), FoldSum(_)
FoldMax(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == FoldMax(Tail(s)) IN IF s[1] > m THEN s[1] ELSE m
FoldMin(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == FoldMin(Tail(s)) IN IF s[1] < m THEN s[1] ELSE m
FoldSum(s) == IF s = <<>> THEN 0 ELSE s[1] + FoldSum(Tail(s))
Sorted(s) == SortSeq(s, <)
\* linear-interpolation percentile, times 100
Pct100(s, p) ==
    LET v == Sorted(s)
        t == (Len(v) - 1) * p
        k == t \div 100
    IN IF k + 1 >= Len(v) THEN 100 * v[Len(v)]
       ELSE 100 * v[k + 1] + (t % 100) * (v[k + 2] - v[k + 1])

Stat(name, s, p) ==
    CASE name = "max" -> FoldMax(s)
      [] name = "min" -> FoldMin(s)
      [] name \in {"sum", "average"} -> FoldSum(s)        \* average scaled by the frame count
      [] name = "percentile" -> Pct100(s, p)
      [] name = "median" -> Pct100(s, 50)

Image(h, name, n, p) == [k \in 1..NPx(h) |-> Stat(name, Vals(h, k, n), p)]

\* chunk sizes: as even as possible, the longer ones first
ChunkSize(n, nch, i) == (n \div nch) + (IF i <= n % nch THEN 1 ELSE 0)
RECURSIVE Upto(_, _, _)
Upto(n, nch, i) == IF i = 0 THEN 0 ELSE Upto(n, nch, i - 1) + ChunkSize(n, nch, i)

ByRow(name) == name \in {"percentile", "median"}
\* the i-th progressive image
Progress(h, name, nf, nch, i, p) ==
    IF ByRow(name)
    THEN LET rows == Upto(h.r, nch, i)
             full == Image(h, name, nf, p)
         IN [k \in 1..NPx(h) |-> IF (k - 1) \div h.c < rows THEN full[k] ELSE 0]
    ELSE Image(h, name, Upto(nf, nch, i), p)
Items(h, name, nf) == IF ByRow(name) THEN h.r ELSE nf

XBegin(h) == h
XJudge(h, e) ==
    LET nf == IF e.op = "frames" THEN 0 ELSE NF(h, e.nf)
        w == CASE e.op = "full" -> [k |-> "v", v |-> <<Image(h, e.stat, nf, e.p)>>]
               [] e.op = "iter" -> IF e.nch > Items(h, e.stat, nf) THEN [k |-> "err", v |-> <<>>]
                                   ELSE [k |-> "v", v |-> [i \in 1..e.nch |-> Progress(h, e.stat, nf, e.nch, i, e.p)]]
               [] e.op = "frames" -> [k |-> "v", v |-> h.frames]
        o == e.obs
        ok == IF w.k = "err" THEN o.k = "err" ELSE o.k = "v" /\ o.v = w.v
    IN [st |-> h, bad |-> IF ok THEN {} ELSE {IF e.op = "frames" THEN "frames-changed" ELSE e.op \o "-" \o e.stat}, want |-> w]

----------------------------------------------------------------------------
\* Exploration: process n items in nch chunks, one item at a time, as the
\* iterators do (yield when the running index reaches the next stop).
MCStart == {[n |-> n, nch |-> k, done |-> 0, yields |-> <<>>] : n \in 1..7, k \in 1..7}
Stop(s, i) == Upto(s.n, s.nch, i)
MCOps(s) == IF s.nch <= s.n /\ s.done < s.n THEN {[op |-> "item"]} ELSE {}
MCApply(s, o) ==
    LET d == s.done + 1
        nx == Len(s.yields) + 1
    IN [s EXCEPT !.done = d, !.yields = IF nx <= s.nch /\ d = Stop(s, nx) THEN Append(@, d) ELSE @]
MCSafe(s) == s.nch <= s.n =>
    /\ \A i \in 1..s.nch : ChunkSize(s.n, s.nch, i) \in {s.n \div s.nch, s.n \div s.nch + 1}
    /\ Upto(s.n, s.nch, s.nch) = s.n
    /\ \A i \in 1..Len(s.yields) : s.yields[i] = Upto(s.n, s.nch, i)
    /\ s.done = s.n => (Len(s.yields) = s.nch /\ s.yields[s.nch] = s.n)
MCSafeStep(s, o) == TRUE
=============================================================================
