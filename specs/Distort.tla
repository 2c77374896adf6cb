------------------------------ MODULE Distort ------------------------------
(***************************************************************************)
(* C27.  Detector distortion functions.                                      *)
(* State: the kind of map and its parameters, which may be set again.        *)
(*   ge   p[1..3] thousandths, p[4..6] the exponents; a point is <<n, m, a, b>>: *)
(*        radius n/m of the reference radius, direction a + b i (|.| integer) *)
(*   dex  eight numbers, a shift for each quadrant; points are <<x, y>>       *)
(*   quad p[1..6] sixteenths: the inverse is the affine map; points <<x, y>>  *)
(*   id   nothing                                                            *)
(* The missing point is <<>>.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Len2(pt) == CHOOSE c \in 1..200 : c * c = pt[3] * pt[3] + pt[4] * pt[4]
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
\* the stretch of the radius times Unit(pt)
Unit(pt) == 1000 * Pow(pt[2], 4) * Pow(Len2(pt), 4)
Stretch(p, pt) == LET n == pt[1] m == pt[2] c == Len2(pt)
                      c2 == (pt[3] * pt[3] - pt[4] * pt[4])                   \* over c^2
                      c4 == 2 * c2 * c2 - Pow(c, 4)                           \* over c^4
                      r(k) == Pow(n, k) * Pow(m, 4 - k)                       \* over m^4
                  IN Unit(pt) + p[1] * r(p[4]) * c2 * c * c + p[2] * r(p[5]) * c4 + p[3] * r(p[6]) * Pow(c, 4)
\* the radius grows along the ray up to one and a half times the reference radius
Sum3(p) == LET a(i) == IF p[i] < 0 THEN -p[i] ELSE p[i] IN
    a(1) * (p[4] + 1) * Pow(3, p[4]) * Pow(2, 4 - p[4]) + a(2) * (p[5] + 1) * Pow(3, p[5]) * Pow(2, 4 - p[5]) + a(3) * (p[6] + 1) * Pow(3, p[6]) * Pow(2, 4 - p[6])
Quad(x) == IF x[1] < 0 THEN (IF x[2] < 0 THEN 3 ELSE 2) ELSE (IF x[2] < 0 THEN 4 ELSE 1)
Off(p, x) == LET k == Quad(x) IN <<p[2 * k - 1], p[2 * k]>>
Trivial(s) == CASE s.kind = "ge" -> s.p[1] = 0 /\ s.p[2] = 0 /\ s.p[3] = 0
                [] s.kind = "id" -> TRUE
                [] OTHER -> \A i \in 1..Len(s.p) : s.p[i] = 0
Det(p) == p[2] * p[6] - p[3] * p[5]
Invertible(s) == CASE s.kind = "ge" -> Sum3(s.p) < 16000
                   [] s.kind = "quad" -> Trivial(s) \/ Det(s.p) # 0
                   [] OTHER -> TRUE
Affine(s, x) == IF Trivial(s) THEN <<16 * x[1], 16 * x[2]>> ELSE <<s.p[1] + s.p[2] * x[1] + s.p[3] * x[2], s.p[4] + s.p[5] * x[1] + s.p[6] * x[2]>>

\* what applying gives for a point: ge the stretch; dex the point; quad: the point whose affine image is given (the event gives the preimage)
WantApply(s, pt) ==
    IF pt = <<>> THEN <<>>
    ELSE CASE s.kind = "ge" -> IF pt[1] = 0 THEN <<0>> ELSE <<Stretch(s.p, pt), pt[3], pt[4]>>
           [] s.kind = "dex" -> LET d == Off(s.p, pt) IN <<pt[1] + d[1], pt[2] + d[2]>>
           [] OTHER -> pt
WantInverse(s, pt) ==
    IF pt = <<>> THEN <<>>
    ELSE CASE s.kind = "dex" -> LET d == Off(s.p, pt) IN <<pt[1] - d[1], pt[2] - d[2]>>
           [] s.kind = "quad" -> Affine(s, pt)
           [] OTHER -> pt
Size(k) == CASE k = "ge" -> 6 [] k = "dex" -> 8 [] k = "quad" -> 6 [] OTHER -> 0
Do(s, e) == IF e.op = "set" /\ Len(e.p) = Size(s.kind) THEN [s EXCEPT !.p = e.p] ELSE s

XBegin(h) == [kind |-> h.kind, p |-> h.p]
XJudge(s, e) ==
    LET o == e.obs V(bad, w) == [st |-> Do(s, e), bad |-> bad, want |-> w] IN
    CASE e.op = "set" -> LET ok == Len(e.p) = Size(s.kind) IN
            V((IF (o.k = "err") = ~ok THEN {} ELSE {"parameter list"}) \cup (IF o.p = Do(s, e).p THEN {} ELSE {"parameters"}) \cup (IF o.trivial = Trivial(Do(s, e)) THEN {} ELSE {"trivial"}), Do(s, e).p)
      [] o.k = "err" -> V({"error"}, "no error")
      [] e.op = "apply" -> LET w == [i \in 1..Len(e.pts) |-> WantApply(s, e.pts[i])] IN
            V((IF o.v = w THEN {} ELSE {"apply"}) \cup (IF o.same THEN {} ELSE {"input changed"}), w)
      [] e.op = "inverse" -> LET w == [i \in 1..Len(e.pts) |-> WantInverse(s, e.pts[i])] IN
            V((IF ~Invertible(s) \/ o.v = w THEN {} ELSE {"inverse"}) \cup (IF o.same THEN {} ELSE {"input changed"}), w)
      [] e.op = "kinds" -> V(IF o.v THEN {} ELSE {"kinds"}, TRUE)

----------------------------------------------------------------------------
Pts(k) == IF k = "ge" THEN {<<0, 1, 1, 0>>, <<1, 1, 1, 0>>, <<1, 2, 3, 4>>, <<3, 2, -4, 3>>, <<1, 1, 0, -1>>, <<>>}
          ELSE {<<0, 0>>, <<3, -2>>, <<-5, 4>>, <<-1, -1>>, <<7, 2>>, <<>>}
Ps(k) == CASE k = "ge" -> {<<0, 0, 0, 2, 2, 2>>, <<5, -3, -8, 2, 2, 2>>, <<4, 2, 9, 2, 2, 2>>, <<0, 0, 6, 2, 2, 2>>, <<-2, 1, -4, 3, 1, 2>>, <<7, 0, 0, 1, 2, 3>>}
           [] k = "dex" -> {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 2, -3, 4, 5, -6, -7, 8>>}
           [] k = "quad" -> {<<0, 0, 0, 0, 0, 0>>, <<3, 16, 0, -5, 0, 16>>, <<0, 17, 1, 2, -1, 15>>}
           [] OTHER -> {<<>>}
MCStart == UNION {{[kind |-> k, p |-> p] : p \in Ps(k)} : k \in {"ge", "dex", "quad", "id"}}
MCOps(s) == {[op |-> o, pts |-> q] : o \in {"apply", "inverse"}, q \in {<<x>> : x \in Pts(s.kind)} \cup {<<x, y, x>> : x, y \in Pts(s.kind)}}
            \cup (IF s.kind = "id" THEN {} ELSE {[op |-> "set", p |-> p] : p \in Ps(s.kind) \cup {<<1, 2, 3>>}})
            \cup {[op |-> "kinds"]}
MCApply(s, e) == Do(s, e)
MCSafe(s) ==
    /\ Invertible(s)
    /\ Trivial(s) => \A x \in Pts(s.kind) \ {<<>>} : s.kind = "ge" => x[1] = 0 \/ Stretch(s.p, x) = Unit(x)
    \* a shift that stays in its quadrant is undone
    /\ s.kind = "dex" => \A x \in Pts("dex") \ {<<>>} : Quad(WantApply(s, x)) = Quad(x) => WantInverse(s, WantApply(s, x)) = x
    \* different points of a ray stay apart
    /\ s.kind = "ge" => \A x, y \in Pts("ge") \ {<<>>} : x[3] = y[3] /\ x[4] = y[4] /\ x[1] * y[2] < y[1] * x[2] => x[1] * y[2] * (Stretch(s.p, x) \div Pow(Len2(x), 4)) * 1 <= y[1] * x[2] * (Stretch(s.p, y) \div Pow(Len2(y), 4)) * 16
    /\ s.kind = "quad" => \A x, y \in Pts("quad") \ {<<>>} : x # y => Affine(s, x) # Affine(s, y)
MCSafeStep(s, e) == e.op # "set" => Do(s, e) = s
=============================================================================
