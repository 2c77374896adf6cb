------------------------------- MODULE Angles -------------------------------
(***************************************************************************)
(* C14.  Angles on a circle of h.turn units: range membership, mapping into *)
(* a period and differences, together with their algebra.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Mod(x, T) == x % T

\* one range, travelled counter-clockwise from s to t (clockwise: from s down to t)
InRange(a, s, t, ccw, T) ==
    LET lo == IF ccw THEN s ELSE t
        hi == IF ccw THEN t ELSE s
    IN Mod(hi - lo, T) = 0 \/ Mod(a - lo, T) <= Mod(hi - lo, T)
InAny(a, ss, ts, ccw, T) == \E i \in 1..Len(ss) : InRange(a, ss[i], ts[i], ccw, T)

\* values of a inside [lo, lo + T] (two of them for an end of the period)
Mapped(a, lo, T) == {lo + Mod(a - lo, T)} \cup (IF Mod(a - lo, T) = 0 THEN {lo + T} ELSE {})
Diff(a, b, T) == LET d == Mod(a - b, T) IN IF d <= T - d THEN d ELSE T - d

----------------------------------------------------------------------------
XBegin(h) == h

Expect(h, e) ==
    CASE e.op = "valid" -> IF Len(e.start) # Len(e.stop) THEN [k |-> "err"]
                           ELSE [k |-> "v", v |-> [i \in 1..Len(e.a) |-> InAny(e.a[i], e.start, e.stop, e.ccw, h.turn)]]
      [] e.op = "map" -> IF e.hi - e.lo # h.turn /\ e.lo - e.hi # h.turn THEN [k |-> "err"]
                         ELSE [k |-> "set", v |-> [i \in 1..Len(e.a) |->
                                  Mapped(e.a[i], IF e.lo < e.hi THEN e.lo ELSE e.hi, h.turn)]]
      [] e.op = "diff" -> [k |-> "v", v |-> [i \in 1..Len(e.a) |-> Diff(e.a[i], e.b[i], h.turn)]]

XJudge(h, e) ==
    LET w == Expect(h, e) o == e.obs
        ok == CASE w.k = "err" -> o.k = "err"
                [] w.k = "v" -> o.k = "v" /\ o.v = w.v
                [] w.k = "set" -> o.k = "v" /\ Len(o.v) = Len(w.v) /\ \A i \in 1..Len(w.v) : o.v[i] \in w.v[i]
    IN [st |-> h, bad |-> IF ok THEN {} ELSE {e.op}, want |-> w]

----------------------------------------------------------------------------
\* Exhaustive circle of 12 points, range ends in several turns
T0 == 12
Angs == [i \in 1..36 |-> i - 13]
MCStart == {[turn |-> T0, first |-> TRUE]}
MCOps(h) ==
    {[op |-> "valid", a |-> Angs, start |-> <<s>>, stop |-> <<t>>, ccw |-> c] :
        s \in -12..12, t \in -12..24, c \in BOOLEAN}
    \cup {[op |-> "valid", a |-> Angs, start |-> <<s, s + 5>>, stop |-> <<s + w, s + 5 + v>>, ccw |-> TRUE] :
        s \in {-7, 0, 4}, w \in {1, 3, 7}, v \in {0, 2, -2}}
    \cup {[op |-> "map", a |-> Angs, lo |-> lo, hi |-> lo + T0] : lo \in -14..14}
    \cup {[op |-> "map", a |-> Angs, lo |-> lo, hi |-> lo + w] : lo \in {-6, 0}, w \in {11, -12, 6}}
    \cup {[op |-> "diff", a |-> Angs, b |-> [i \in 1..36 |-> b]] : b \in -20..20}
MCApply(h, op) == [h EXCEPT !.first = FALSE]
MCSafe(h) == h.first =>
    \A a, s \in 0..(T0 - 1) :
      /\ Diff(a, s, T0) = Diff(s, a, T0) /\ Diff(a, s, T0) \in 0..(T0 \div 2)
      /\ (Diff(a, s, T0) = 0) <=> (a = s)
      /\ \A t \in 0..(T0 - 1) :
           \* ends included; direction reversal swaps the ends; turns do not matter
           /\ InRange(s, s, t, TRUE, T0) /\ InRange(t, s, t, TRUE, T0)
           /\ InRange(a, s, t, TRUE, T0) = InRange(a, t, s, FALSE, T0)
           /\ InRange(a + T0, s - T0, t + 2 * T0, TRUE, T0) = InRange(a, s, t, TRUE, T0)
           \* a range and its complement cover the circle and meet only in the ends
           /\ InRange(a, s, t, TRUE, T0) \/ InRange(a, t, s, TRUE, T0)
           /\ s # t /\ InRange(a, s, t, TRUE, T0) /\ InRange(a, t, s, TRUE, T0) => a \in {s, t}
           /\ Diff(a, t, T0) <= Diff(a, s, T0) + Diff(s, t, T0)
      /\ \A m \in Mapped(a + 3 * T0, s, T0) : m \in s..(s + T0) /\ Mod(m - a, T0) = 0 /\ m \in Mapped(m, s, T0)
MCSafeStep(h, op) ==
    op.op = "valid" =>
       \* widening the list of ranges never loses an angle
       \A i \in 1..36 : InRange(op.a[i], op.start[1], op.stop[1], op.ccw, T0)
                          => InAny(op.a[i], op.start, op.stop, op.ccw, T0)
=============================================================================
