------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* C06.  Two-theta intervals of the shown reflections and their merging.    *)
(* Reflections are numbered from 0 in increasing angle; T[i] is the angle in *)
(* integer units (NI: cannot diffract), cls[i] the spacing class (equal for  *)
(* reflections at the same angle), ex the excluded set.  The width setting   *)
(* is [k |-> "w", v] (full angular width) or [k |-> "s", v] (strain, 1e-6).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NI == -2147483647
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == IF x = NI \/ y = NI THEN x = y ELSE Abs(x - y) <= t
SetOf(x) == {x[k] : k \in 1..Len(x)}
N(s) == Len(s.T)
Shown(s) == SelectSeq([k \in 1..N(s) |-> k - 1], LAMBDA i : i \notin s.ex)
TT(s, i) == s.T[i + 1]

\* neighbours i, i+1 are joined when their intervals touch or overlap.  J is
\* the exact comparison of the reported ends, hi[i] >= lo[i+1]; it must agree
\* with the rounded ends except for contacts within rounding
GoodJoins(lo, hi, J) ==
    /\ Len(J) = (IF lo = <<>> THEN 0 ELSE Len(lo) - 1)
    /\ \A i \in 1..Len(J) :
         IF lo[i] = NI \/ hi[i] = NI \/ lo[i+1] = NI \/ hi[i+1] = NI THEN ~J[i]
         ELSE (J[i] => hi[i] + 4 >= lo[i+1]) /\ (~J[i] => hi[i] - 4 < lo[i+1])
RECURSIVE Groups(_, _, _)
Groups(J, i, cur) ==           \* cur = <<members so far>> ending in i
    IF i > Len(J) THEN <<cur>>
    ELSE IF J[i] THEN Groups(J, i + 1, Append(cur, i + 1))
    ELSE <<cur>> \o Groups(J, i + 1, <<i + 1>>)
Merge(n, J) == IF n = 0 THEN <<>> ELSE Groups(J, 1, <<1>>)

RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs) \o Flat(Tail(gs))

\* a list of groups (positions from 0) with hulls [a, b] is right for the intervals:
\* everything once, in order; split and joined exactly where it must be
GoodMerge(lists, hulls, lo, hi, J) ==
    LET gs == Merge(Len(lo), J) IN
    /\ Len(lists) = Len(gs) /\ Len(hulls) = Len(gs)
    /\ \A g \in 1..Len(gs) :
         LET mem == gs[g] IN
         /\ lists[g] = [k \in 1..Len(mem) |-> mem[k] - 1]
         /\ Near(hulls[g][1], lo[mem[1]], 2) /\ Near(hulls[g][2], hi[mem[Len(mem)]], 2)
\* with duplicates culled: one representative of each run of equal angles
GoodCull(lists, hulls, lo, hi, J, cls) ==
    LET gs == Merge(Len(lo), J) IN
    /\ Len(lists) = Len(gs) /\ Len(hulls) = Len(gs)
    /\ \A g \in 1..Len(gs) :
         LET mem == gs[g] IN
         /\ \A k \in 1..Len(lists[g]) : (lists[g][k] + 1) \in SetOf(mem)
         /\ \A k \in 1..(Len(lists[g]) - 1) : lists[g][k] < lists[g][k + 1]
         /\ {cls[p] : p \in SetOf(mem)} = {cls[lists[g][k] + 1] : k \in 1..Len(lists[g])}
         /\ Cardinality({cls[p] : p \in SetOf(mem)}) = Len(lists[g])
         /\ Near(hulls[g][1], lo[mem[1]], 2) /\ Near(hulls[g][2], hi[mem[Len(mem)]], 2)

\* one interval per shown reflection
GoodRanges(s, o, w) ==
    LET sh == Shown(s) IN
    /\ Len(o.lo) = Len(sh) /\ Len(o.hi) = Len(sh)
    /\ \A k \in 1..Len(sh) :
         IF w.k = "w"
         THEN IF TT(s, sh[k]) = NI THEN o.lo[k] = NI /\ o.hi[k] = NI
              ELSE Near(2 * o.lo[k], 2 * TT(s, sh[k]) - w.v, 4) /\ Near(2 * o.hi[k], 2 * TT(s, sh[k]) + w.v, 4)
         ELSE \* d(lo) = d (1 + strain), d(hi) = d (1 - strain), in millionths
              IF TT(s, sh[k]) = NI \/ s.edge[sh[k] + 1] THEN TRUE
              ELSE Near(o.rlo[k], 1000000 + w.v, 2) /\ Near(o.rhi[k], 1000000 - w.v, 2)

XBegin(h) == [h EXCEPT !.ex = SetOf(h.ex)]
Do(s, e) ==
    CASE e.op = "new" -> s
      [] e.op = "mask" -> [s EXCEPT !.ex = {i \in 0..(N(s) - 1) : e.m[i + 1]}]
      [] e.op = "width" -> [s EXCEPT !.w = [k |-> "w", v |-> e.v]]
      [] e.op = "strain" -> [s EXCEPT !.w = [k |-> "s", v |-> e.v]]
      \* angles after a change of wavelength
      [] e.op = "wave" -> [s EXCEPT !.T = e.T, !.edge = e.edge]
XJudge(st, e) ==
    LET s == Do(st, e) o == e.obs sh == Shown(s) IN
    IF o.k # "ok" THEN [st |-> s, bad |-> {"refused"}, want |-> "ranges"]
    ELSE LET cls == [k \in 1..Len(sh) |-> s.cls[sh[k] + 1]]
             gr == GoodRanges(s, o.rg, s.w)
             full == Len(o.rg.lo) = Len(sh)
             bad == (IF gr THEN {} ELSE {"ranges"})
               \cup (IF GoodRanges(s, o.rs, [k |-> "s", v |-> o.sv]) THEN {} ELSE {"ranges-strain"})
               \cup (IF ~full \/ (GoodJoins(o.rg.lo, o.rg.hi, o.joins) /\ GoodMerge(o.mlist, o.mhull, o.rg.lo, o.rg.hi, o.joins)) THEN {} ELSE {"merged"})
               \cup (IF ~full \/ GoodCull(o.clist, o.chull, o.rg.lo, o.rg.hi, o.joins, cls) THEN {} ELSE {"culled"})
               \* reflections whose interval contains the asked angle
               \cup (IF ~full \/ \A q \in 1..Len(o.at) :
                           LET t == o.at[q].t IN
                           /\ \A k \in 1..Len(sh) :
                                IF o.rg.lo[k] = NI \/ o.rg.hi[k] = NI THEN sh[k] \notin SetOf(o.at[q].ids)
                                ELSE /\ (t > o.rg.lo[k] + 2 /\ t < o.rg.hi[k] - 2) => sh[k] \in SetOf(o.at[q].ids)
                                     /\ (t < o.rg.lo[k] - 2 \/ t > o.rg.hi[k] + 2) => sh[k] \notin SetOf(o.at[q].ids)
                           /\ SetOf(o.at[q].ids) \subseteq SetOf(sh)
                           /\ \A k \in 1..(Len(o.at[q].ids) - 1) : o.at[q].ids[k] < o.at[q].ids[k + 1]
                     THEN {} ELSE {"at-angle"})
         IN [st |-> s, bad |-> bad, want |-> [shown |-> sh, groups |-> IF full THEN Merge(Len(sh), o.joins) ELSE <<>>]]

----------------------------------------------------------------------------
\* Exploration: every pattern of duplicate / overlapping / separate neighbours
\* (angle steps 0, 2 and 9 with width 4), every exclusion, every width
Steps == {0, 2, 9}
RECURSIVE Run(_, _)
Run(ds, t) == IF ds = <<>> THEN <<t>> ELSE <<t>> \o Run(Tail(ds), t + Head(ds))
MCStart == {[T |-> Run(ds, 20), w |-> [k |-> "w", v |-> 4], ex |-> {}, first |-> TRUE] :
               ds \in [1..4 -> Steps]} \cup
           {[T |-> Run(ds, 20), w |-> [k |-> "w", v |-> 4], ex |-> {}, first |-> TRUE] : ds \in [1..2 -> Steps]}
MCOps(s) == {[op |-> "mask", m |-> m] : m \in {x \in [1..Len(s.T) -> BOOLEAN] :
                  Cardinality({i \in 1..Len(s.T) : x[i]}) <= 2 \/ \A i \in 1..Len(s.T) : x[i]}}
            \cup {[op |-> "width", v |-> v] : v \in {0, 2, 18}}
MCApply(s, e) == [Do(s, e) EXCEPT !.first = FALSE]
Lo(s) == LET sh == Shown(s) IN [k \in 1..Len(sh) |-> TT(s, sh[k]) - s.w.v \div 2]
Hi(s) == LET sh == Shown(s) IN [k \in 1..Len(sh) |-> TT(s, sh[k]) + s.w.v \div 2]
\* reachability in the overlap graph
Ov(lo, hi, i, j) == lo[i] <= hi[j] /\ lo[j] <= hi[i]
RECURSIVE Reach(_, _, _)
Reach(S, lo, hi) == LET R == {j \in 1..Len(lo) : \E i \in S : Ov(lo, hi, i, j)} IN IF R = S THEN S ELSE Reach(R, lo, hi)
MCSafe(s) ==
    LET lo == Lo(s) hi == Hi(s)
        J == [i \in 1..(IF lo = <<>> THEN 0 ELSE Len(lo) - 1) |-> hi[i] >= lo[i + 1]]
        gs == Merge(Len(lo), J) IN
    /\ Flat(gs) = [k \in 1..Len(lo) |-> k]
    \* the groups are the connected components of the overlap relation
    /\ \A g \in 1..Len(gs) : SetOf(gs[g]) = Reach({gs[g][1]}, lo, hi)
    /\ \A g \in 1..(Len(gs) - 1) : hi[gs[g][Len(gs[g])]] < lo[gs[g + 1][1]]
MCSafeStep(s, e) == TRUE
=============================================================================
