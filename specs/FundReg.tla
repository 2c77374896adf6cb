------------------------------ MODULE FundReg ------------------------------
(***************************************************************************)
(* C23.  Symmetry-reduced orientations.  Quaternion components live in the  *)
(* ring Z[sqrt(D)], D = 2 (cubic, tetragonal, ...) or 3 (hexagonal,         *)
(* trigonal, ...): the pair <<a, b>> is a + b*sqrt(D).  Group elements are  *)
(* scaled to norm 4, orientations are integer quaternions.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
RSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
RMul(x, y, D) == <<x[1]*y[1] + D*x[2]*y[2], x[1]*y[2] + x[2]*y[1]>>
RNeg(x) == <<-x[1], -x[2]>>
\* sign of a + b*sqrt(D)
RSign(x, D) ==
    LET a == x[1] b == x[2] IN
    IF a >= 0 /\ b >= 0 THEN (IF a = 0 /\ b = 0 THEN 0 ELSE 1)
    ELSE IF a <= 0 /\ b <= 0 THEN -1
    ELSE IF a > 0 THEN (IF a*a > D*b*b THEN 1 ELSE -1)
    ELSE IF D*b*b > a*a THEN 1 ELSE -1
RAbs(x, D) == IF RSign(x, D) < 0 THEN RNeg(x) ELSE x
RLeq(x, y, D) == RSign(RSub(y, x), D) >= 0

QR(q) == [i \in 1..4 |-> <<q[i], 0>>]       \* an integer quaternion in the ring
RQMul(p, q, D) ==
    LET m(i, j) == RMul(p[i], q[j], D)
        s4(a, b, c, d) == RAdd(RAdd(a, b), RAdd(c, d)) IN
    << s4(m(1,1), RNeg(m(2,2)), RNeg(m(3,3)), RNeg(m(4,4))),
       s4(m(1,2), m(2,1), m(3,4), RNeg(m(4,3))),
       s4(m(1,3), RNeg(m(2,4)), m(3,1), m(4,2)),
       s4(m(1,4), m(2,3), RNeg(m(3,2)), m(4,1)) >>
RQInv(q) == <<q[1], RNeg(q[2]), RNeg(q[3]), RNeg(q[4])>>
RQNeg(q) == [i \in 1..4 |-> RNeg(q[i])]
RQScale(k, q) == [i \in 1..4 |-> <<k * q[i][1], k * q[i][2]>>]

----------------------------------------------------------------------------
\* the rotation groups, elements up to sign, norm 4
IQ(a, b, c, d) == QR(<<a, b, c, d>>)
S2 == <<0, 1>>   S2n == <<0, -1>>   Z0 == <<0, 0>>
Axes2 == {IQ(2,0,0,0), IQ(0,2,0,0), IQ(0,0,2,0), IQ(0,0,0,2)}
Thirds == {IQ(1, b, c, d) : b \in {1,-1}, c \in {1,-1}, d \in {1,-1}}
\* entries sqrt(2) in two positions i < j, the second with either sign
TwoPos == { [k \in 1..4 |-> IF k = i THEN S2 ELSE IF k = j THEN s ELSE Z0] :
              i \in 1..4, j \in 1..4, s \in {S2, S2n} }
Roots == {q \in TwoPos : Cardinality({k \in 1..4 : q[k] # Z0}) = 2}
Canon(S, D) == {q \in S : \E i \in 1..4 : RSign(q[i], D) > 0 /\ \A j \in 1..(i-1) : q[j] = Z0}
S3 == <<0, 1>>   S3n == <<0, -1>>   One == <<1, 0>>  OneN == <<-1, 0>>   Two == <<2, 0>>
\* rotations by k*60 degrees about z, half angle k*30
ZRot(k) == CASE k = 0 -> <<Two, Z0, Z0, Z0>> [] k = 1 -> <<S3, Z0, Z0, One>> [] k = 2 -> <<One, Z0, Z0, S3>>
             [] k = 3 -> <<Z0, Z0, Z0, Two>> [] k = 4 -> <<One, Z0, Z0, S3n>> [] k = 5 -> <<S3, Z0, Z0, OneN>>
\* two-fold axes in the plane at k*30 degrees from x
PTwo(k) == CASE k = 0 -> <<Z0, Two, Z0, Z0>> [] k = 1 -> <<Z0, S3, One, Z0>> [] k = 2 -> <<Z0, One, S3, Z0>>
             [] k = 3 -> <<Z0, Z0, Two, Z0>> [] k = 4 -> <<Z0, One, S3n, Z0>> [] k = 5 -> <<Z0, S3, OneN, Z0>>

Group(g) ==
    CASE g = "ci" -> {IQ(2,0,0,0)}
      [] g = "c2h" -> {IQ(2,0,0,0), IQ(0,0,2,0)}
      [] g = "d2h" -> Axes2
      [] g = "c4h" -> {q \in Axes2 \cup Canon(Roots, 2) : q[2] = Z0 /\ q[3] = Z0}
      [] g = "d4h" -> {q \in Axes2 \cup Canon(Roots, 2) : (q[2] = Z0 /\ q[3] = Z0) \/ (q[1] = Z0 /\ q[4] = Z0)}
      [] g = "th" -> Axes2 \cup Thirds
      [] g = "oh" -> Axes2 \cup Thirds \cup Canon(Roots, 2)
      [] g = "c3i" -> {ZRot(0), ZRot(2), ZRot(4)}
      [] g = "d3d" -> {ZRot(0), ZRot(2), ZRot(4), PTwo(0), PTwo(2), PTwo(4)}
      [] g = "c6h" -> {ZRot(k) : k \in 0..5}
      [] g = "d6h" -> {ZRot(k) : k \in 0..5} \cup {PTwo(k) : k \in 0..5}
Order(g) == CASE g = "ci" -> 1 [] g = "c2h" -> 2 [] g = "d2h" -> 4 [] g = "c4h" -> 4 [] g = "d4h" -> 8 [] g = "th" -> 12
              [] g = "oh" -> 24 [] g = "c3i" -> 3 [] g = "d3d" -> 6 [] g = "c6h" -> 6 [] g = "d6h" -> 12
Ring(g) == IF g \in {"c4h", "d4h", "th", "oh"} THEN 2 ELSE 3
Groups == {"ci", "c2h", "d2h", "c4h", "d4h", "th", "oh", "c3i", "d3d", "c6h", "d6h"}

\* equivalents of orientation q (sign-fixed by taking |first component|)
Equiv(q, G, D) == {RQMul(QR(q), s, D) : s \in G}
MaxFirst(S, D) == CHOOSE m \in {RAbs(x[1], D) : x \in S} : \A x \in S : RLeq(RAbs(x[1], D), m, D)
Fixed(q, D) == IF RSign(q[1], D) < 0 THEN RQNeg(q) ELSE q
Reduced(q, G, D) == LET S == Equiv(q, G, D) m == MaxFirst(S, D)
                    IN {x \in S \cup {RQNeg(y) : y \in S} : x[1] = m}
\* the rotations (in the sample frame) taking q1 to (sample) * q2 * (crystal)
MisSet(p, q, G, H, D) == {RQMul(RQMul(h, RQMul(QR(q), s, D), D), RQInv(QR(p)), D) : s \in G, h \in H}

----------------------------------------------------------------------------
XBegin(h) == h
XJudge(h, e) ==
    LET D == h.D
        r == CASE e.op = "group" ->
                    LET G == Group(e.g)
                        o == {e.obs.v[i] : i \in 1..Len(e.obs.v)} IN
                    [bad |-> IF e.obs.k = "v" /\ Len(e.obs.v) = Order(e.g) /\ Cardinality(o) = Order(e.g)
                                /\ \A x \in o : (x \in G \/ RQNeg(x) \in G) /\ RSign(x[1], D) >= 0
                             THEN {} ELSE {"group"},
                     want |-> Order(e.g)]
               [] e.op = "reduce" ->
                    LET G == Group(e.g) IN
                    [bad |-> IF e.obs.k = "v" /\ Len(e.obs.v) = Len(e.q)
                                /\ \A i \in 1..Len(e.q) : e.obs.v[i] \in Reduced(e.q[i], G, D)
                             THEN {} ELSE {"reduce"},
                     want |-> IF e.obs.k = "v" THEN [i \in 1..Len(e.q) |-> Reduced(e.q[i], G, D)] ELSE <<>>]
               [] e.op = "mis" ->
                    LET G == Group(e.g) H == Group(e.h)
                        S == [i \in 1..Len(e.q) |-> MisSet(e.p, e.q[i], G, H, D)]
                        m == [i \in 1..Len(e.q) |-> MaxFirst(S[i], D)] IN
                    [bad |-> (IF e.obs.k = "v" /\ Len(e.obs.c) = Len(e.q) /\ \A i \in 1..Len(e.q) : e.obs.c[i] = m[i]
                              THEN {} ELSE {"mis-angle"}) \cup
                             (IF ~e.hasq THEN {}
                              ELSE IF e.obs.k = "v" /\ Len(e.obs.v) = Len(e.q)
                                      /\ \A i \in 1..Len(e.q) : /\ e.obs.v[i][1] = m[i]
                                                                 /\ (e.obs.v[i] \in S[i] \/ RQNeg(e.obs.v[i]) \in S[i])
                                   THEN {} ELSE {"mis-quat"}),
                     want |-> m]
               [] e.op = "avg" ->
                    LET S == Equiv(e.q, Group(e.g), D) IN
                    [bad |-> IF e.obs.k = "v" /\ (e.obs.v \in S \/ RQNeg(e.obs.v) \in S) THEN {} ELSE {"avg"}, want |-> S]
               [] e.op = "bad" -> [bad |-> IF e.obs.k = "err" THEN {} ELSE {"bad"}, want |-> "err"]
    IN [st |-> h, bad |-> r.bad, want |-> r.want]

----------------------------------------------------------------------------
\* Model laws, checked over every group and a set of orientations
Small == {<<1,0,0,0>>, <<1,2,2,4>>, <<2,-1,4,2>>, <<0,3,0,4>>, <<2,3,6,0>>, <<1,1,1,1>>, <<-4,1,2,2>>, <<4,4,7,0>>}
RepOf(S, D) == CHOOSE x \in S : TRUE
MCStart == {[g |-> g, D |-> d, ph |-> 0] : g \in Groups, d \in {2, 3}}
MCOps(s) == IF s.D = Ring(s.g) \/ s.g \in {"ci", "c2h", "d2h"}
            THEN {[op |-> "group", g |-> s.g]} \cup {[op |-> "reduce", g |-> s.g, q |-> <<q>>] : q \in Small}
                 \cup {[op |-> "mis", g |-> s.g, h |-> "ci", p |-> p, q |-> <<q>>, hasq |-> TRUE] : p \in Small, q \in Small}
            ELSE {}
MCApply(s, op) == [s EXCEPT !.ph = 1]
MCSafe(s) ==
    (s.ph = 0 /\ MCOps(s) # {}) =>
    LET G == Group(s.g) D == s.D
        inG(x) == x \in G \/ RQNeg(x) \in G IN
    /\ Cardinality(G) = Order(s.g)
    \* closed under product and inverse (products have norm 16: twice an element)
    /\ \A x \in G, y \in G : \E z \in G : RQMul(x, y, D) \in {RQScale(2, z), RQScale(-2, z)}
    /\ \A x \in G : inG(RQInv(x))
    /\ \A q \in Small :
        \* the reduced orientation is not reduced further, and equivalents reduce alike
        /\ Reduced(q, G, D) # {}
        /\ \A s1 \in G : MaxFirst({RQMul(RQMul(QR(q), s1, D), s2, D) : s2 \in G}, D)
                          = <<2 * MaxFirst(Equiv(q, G, D), D)[1], 2 * MaxFirst(Equiv(q, G, D), D)[2]>>
    /\ \A p \in Small, q \in Small :
        MaxFirst(MisSet(p, q, G, Group("ci"), D), D) = MaxFirst(MisSet(q, p, G, Group("ci"), D), D)
MCSafeStep(s, op) == TRUE
=============================================================================
