------------------------------ MODULE Crystal ------------------------------
(***************************************************************************)
(* C28.  Vectors of a crystal: direct, reciprocal and cartesian components,   *)
(* products, angles, the symmetry in cartesian axes, the colour key of         *)
(* directions, and the variants of an orientation relationship.                *)
(* A crystal is its space group and a whole-number direct metric               *)
(* <<aa, bb, cc, bc, ac, ab>>; positions of the cartesian axes never matter:    *)
(* whatever goes through cartesian components comes back.                      *)
(***************************************************************************)
EXTENDS SpBase

Gm(m) == <<m[1], m[6], m[5], m[6], m[2], m[4], m[5], m[4], m[3]>>
DetM(m) == Det(Gm(m))
\* the adjugate of a symmetric matrix
AdjM(m) == LET G == Gm(m) c(a, b, d, e) == G[a] * G[e] - G[b] * G[d] IN
    <<c(5, 6, 8, 9), c(3, 2, 9, 8), c(2, 3, 5, 6), c(6, 4, 9, 7), c(1, 3, 7, 9), c(3, 1, 6, 4), c(4, 5, 7, 8), c(2, 1, 8, 7), c(1, 2, 4, 5)>>
AdjW(W) == LET c(a, b, d, e) == W[a] * W[e] - W[b] * W[d] IN
    <<c(5, 6, 8, 9), c(3, 2, 9, 8), c(2, 3, 5, 6), c(6, 4, 9, 7), c(1, 3, 7, 9), c(3, 1, 6, 4), c(4, 5, 7, 8), c(2, 1, 8, 7), c(1, 2, 4, 5)>>
InvW(W) == [i \in 1..9 |-> Det(W) * AdjW(W)[i]]          \* Det is 1 or -1
Dt(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Eps(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Low(m, v) == Col(Gm(m), v)                                \* direct to reciprocal
Up(m, p) == Col(AdjM(m), p)                               \* reciprocal to direct, times DetM
\* the product of two vectors given alike; reciprocal ones times DetM
Prod(m, sp, u, v) == IF sp = "d" THEN Dt(u, Low(m, v)) ELSE Dt(u, Up(m, v))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* fractions in lowest terms
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Red(n, d) == LET g == GCD(AbsI(n), d) IN <<n \div g, d \div g>>
\* x times |x| of n / d, then over e:  sign(n) n^2 / (d e)
Sq(n, a, b) == LET f == Red(n, a) g == Red(AbsI(n), b) IN Red((f[1] * g[1]), (f[2] * g[2]))

(* The frame of an orientation relationship: x along the direct vector d, z    *)
(* along the normal p of a plane that holds it.  What an operation does in     *)
(* this frame, with square roots squared away:                                *)
Rep(m, d, p, W) ==
    LET nd == Prod(m, "d", d, d)  np == Prod(m, "r", p, p)  wd == Col(W, d)  wp == Row(p, InvW(W))  D == DetM(m)
        z(v) == Red(v, 1)
    IN <<Red(Dt(wd, Low(m, d)), nd),
         LET a == Dt(p, wd) IN Red(Sgn(a) * a * a * D, nd * np),
         LET a == Dt(wp, d) IN Red(Sgn(a) * a * a * D, nd * np),
         Red(Dt(wp, Up(m, p)), np),
         LET a == Dt(p, Up(m, Eps(d, wd))) f == Red(a, nd) IN Red(Sgn(a) * f[1] * f[1], np * (f[2] * f[2])),
         LET a == Dt(d, Low(m, Eps(wp, p))) f == Red(a, np) h == Red(f[1] * f[1], nd) k == Red(D, f[2] * f[2]) IN LET q == Red(h[1], k[2]) r == Red(k[1], h[2]) IN <<Sgn(a) * q[1] * r[1], q[2] * r[2]>>,
         Det(W)>>
\* the operations of the first crystal that the second one shares through the relationship
Shared(s, e) == LET R2 == {Rep(s.m2, e.d2, e.p2, W) : W \in s.pg2} IN {W \in s.pg : Rep(s.m, e.d1, e.p1, W) \in R2}
Mul9(A, B) == SubSeq(Mul(A \o <<0, 0, 0>>, B \o <<0, 0, 0>>), 1, 9)
\* variants that differ by a shared operation are the same
Coset(H, W) == {Mul9(W, h) : h \in H}

XBegin(h) == LET p == PG(OpsOf(h.sg)) q == PG(OpsOf(h.sg2)) IN
    [sg |-> h.sg, sg2 |-> h.sg2, m |-> h.m, pg |-> p, laue |-> LaueOf(p), m2 |-> h.m2, pg2 |-> q]

\* directions in whole numbers, the same up to a positive length
Same(v, w) == (\A i \in 1..3 : w[i] > -1000 /\ w[i] < 1000) /\ Eps(v, w) = <<0, 0, 0>> /\ Dt(v, w) > 0
Alike(s, v, w) == \E W \in s.laue : Same(Col(W, v), w)
\* the key has an edge where two sides meet that are not the same for these groups
Low3(s) == s.sg \in {1, 2, 143, 144, 145, 146, 147, 148}
Edge(s, v) == Low3(s) /\ (v[3] = 0 \/ v[1] = 0 \/ v[2] = 0 \/ v[1] = v[2])

XJudge(s, e) ==
    LET o == e.obs V(bad, w) == [st |-> s, bad |-> bad, want |-> w] C(ok, x) == IF ok THEN {} ELSE {x} IN
    IF o.k = "err" THEN V({e.op \o " fails"}, "no error")
    ELSE CASE e.op = "path" ->    \* through any components and back to direct or reciprocal ones; <<v>> times the determinant when raised
                LET a == e.path[1] b == e.path[Len(e.path)]
                    w == IF a = b THEN e.v ELSE IF a = "d" THEN Low(s.m, e.v) ELSE Up(s.m, e.v) IN V(C(o.v = w, "components"), w)
           [] e.op = "dot" -> LET w == Prod(s.m, e.sp, e.u, e.v) IN V(C(o.v = w, "product"), w)
           [] e.op = "length" -> LET w == Prod(s.m, e.sp, e.u, e.u) IN V(C(o.v = w, "length") \cup C(o.unit, "normalised"), w)
           \* the cosine, squared with its sign
           [] e.op = "angle" -> LET a == Prod(s.m, e.sp, e.u, e.v) w == Sgn(a) * a * a IN V(C(o.v = w, "angle"), w)
           \* the true product, over the volume; or the bare one
           [] e.op = "cross" -> LET x == Eps(e.u, e.v)
                                    w == IF e.sp = e.out THEN IF e.sp = "d" THEN Up(s.m, x) ELSE Low(s.m, x) ELSE x IN V(C(o.v = w, "cross product") \cup C(o.same, "the input is overwritten"), w)
           [] e.op = "cart" -> V(C(Rng(o.pg) = s.pg /\ Distinct(o.pg), "cartesian symmetry") \cup C(Rng(o.laue) = s.laue /\ Distinct(o.laue), "cartesian laue symmetry"), <<Cardinality(s.pg), Cardinality(s.laue)>>)
           [] e.op = "colour" -> V(C(\A i \in 1..Len(e.vs) : Edge(s, e.vs[i]) \/ \A j \in 1..i : Alike(s, e.vs[i], e.vs[j]) => o.colour[i] = o.colour[j], "equivalent directions differ in colour")
                                   \cup C(\A i \in 1..Len(e.vs) : Alike(s, e.vs[i], o.red[i]), "reduced to another direction")
                                   \cup C(\A i \in 1..Len(e.vs) : \A j \in 1..i : o.colour[i] = o.colour[j] /\ ~Edge(s, e.vs[i]) /\ ~Edge(s, e.vs[j]) => Alike(s, e.vs[i], e.vs[j]), "different directions alike in colour"), "colours by class")
           \* one variant for each class of operations; all of them, once
           [] e.op = "variants" -> LET H == Shared(s, e) n == Cardinality(s.pg) \div Cardinality(H)
                                       of(x) == {W \in s.pg : Col(W, e.d1) = x[1] /\ Row(e.p1, InvW(W)) = x[2] /\ Det(W) = x[3]}
                                       cl(x) == {Coset(H, W) : W \in of(x)} IN
                V(C(o.num = n, "number of variants") \cup C(Len(o.v) = n, "variants listed")
                  \cup C(\A i \in 1..Len(o.v) : of(o.v[i]) # {}, "not a variant")
                  \cup C(\A i, j \in 1..Len(o.v) : i # j => o.v[i] # o.v[j], "a variant twice")
                  \cup C(\A W \in s.pg : \E i \in 1..Len(o.v) : Coset(H, W) \in cl(o.v[i]), "a variant is missing"), n)

MCStart == {XBegin([sg |-> n, m |-> <<2, 3, 5, 0, 0, 0>>, sg2 |-> k, m2 |-> <<1, 1, 1, 0, 0, 0>>]) : n \in {16, 25, 47}, k \in {195, 221}}
          \cup {XBegin([sg |-> n, m |-> <<1, 1, 1, 0, 0, 0>>, sg2 |-> k, m2 |-> m]) : n \in {200, 215, 221}, k \in {16, 47}, m \in {<<2, 3, 5, 0, 0, 0>>, <<1, 1, 1, 0, 0, 0>>}}
          \cup {XBegin([sg |-> n, m |-> <<2, 2, 3, 0, 0, -1>>, sg2 |-> k, m2 |-> <<1, 1, 1, 0, 0, 0>>]) : n \in {164, 162, 194}, k \in {221, 207}}
          \cup {XBegin([sg |-> 221, m |-> <<1, 1, 1, 0, 0, 0>>, sg2 |-> 194, m2 |-> <<2, 2, 3, 0, 0, -1>>]), XBegin([sg |-> 2, m |-> <<4, 5, 6, 1, -1, 2>>, sg2 |-> 139, m2 |-> <<2, 2, 3, 0, 0, 0>>])}
Few == {<<1, 0, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 1, 1>>, <<1, -2, 1>>}
MCOps(s) == {[op |-> "variants", d1 |-> d, p1 |-> p, d2 |-> x, p2 |-> q] : <<d, p>> \in {t \in Few \X Few : Dt(t[1], t[2]) = 0}, <<x, q>> \in {<<<<1, 0, 0>>, <<0, 0, 1>>>>, <<<<1, -1, 0>>, <<1, 1, 0>>>>, <<<<1, -1, 1>>, <<1, 1, 0>>>>}}
           \cup {[op |-> "angle", sp |-> sp, u |-> u, v |-> v] : u \in Few, v \in Few, sp \in {"d", "r"}}
           \cup {[op |-> "cross", sp |-> sp, out |-> y, u |-> u, v |-> v] : u \in Few, v \in Few, sp \in {"d", "r"}, y \in {"d", "r"}}
           \cup {[op |-> "path", path |-> p, v |-> v] : v \in Few, p \in {<<"d", "r">>, <<"r", "d">>, <<"d", "c", "r">>, <<"r", "c", "d">>, <<"d", "c", "d">>, <<"r", "c", "r">>}}
MCApply(s, e) == s
MCSafe(s) == /\ \A W \in s.pg : Mul9(W, InvW(W)) = SubSeq(One, 1, 9)
            \* the metric has the symmetry of the group
            /\ \A W \in s.pg : \A u \in Few : \A v \in Few : Prod(s.m, "d", Col(W, u), Col(W, v)) = Prod(s.m, "d", u, v)
\* laws: what is shared is a group, so the variants divide the operations; raising undoes lowering; the angle is bounded; the cross product is normal
MCSafeStep(s, e) ==
    CASE e.op = "variants" -> LET H == Shared(s, e) IN SubSeq(One, 1, 9) \in H /\ (\A a, b \in H : Mul9(a, b) \in H) /\ Cardinality(s.pg) % Cardinality(H) = 0 /\ UNION {Coset(H, W) : W \in s.pg} = s.pg
      [] e.op = "angle" -> LET a == Prod(s.m, e.sp, e.u, e.v) IN a * a <= Prod(s.m, e.sp, e.u, e.u) * Prod(s.m, e.sp, e.v, e.v)
      [] e.op = "cross" -> Dt(Eps(e.u, e.v), e.u) = 0
      [] OTHER -> Up(s.m, Low(s.m, e.v)) = [i \in 1..3 |-> DetM(s.m) * e.v[i]]
=============================================================================
