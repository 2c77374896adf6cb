--------------------------------- MODULE Sim ---------------------------------
(***************************************************************************)
(* C24.  Simulated diffraction patterns: every reflection that the model    *)
(* says must appear appears exactly once with the right labels and values,  *)
(* and nothing else does.  Geometry as in Ray; crystals are cubic with      *)
(* integer lattice parameter a0 and isotropic inverse stretch v.            *)
(***************************************************************************)
EXTENDS Ray

RECURSIVE Isq2(_, _, _)
Isq2(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m*m <= n THEN Isq2(n, m, hi) ELSE Isq2(n, lo, m)
Isqrt(n) == Isq2(n, 0, 46340)

\* ---- angles as integer directions <<cos, sin>>
DirOf(h) == LET c == CS(h) IN <<c.c, c.s>>
PrimD(v) == LET g == Gcd2(v[1], v[2]) IN IF g = 0 THEN v ELSE <<v[1] \div g, v[2] \div g>>
Turn(x, a) == PrimD(<<x[1]*a[1] + x[2]*a[2], x[2]*a[1] - x[1]*a[2]>>)      \* x rotated by minus a
Half(v) == IF v[2] > 0 \/ (v[2] = 0 /\ v[1] > 0) THEN 0 ELSE 1
Zero(v) == v[2] = 0 /\ v[1] > 0
\* x in the counter-clockwise range from a to b: "yes", "no", "edge"
InCCW(x, a, b) ==
    LET u == Turn(x, a) w == Turn(b, a) IN
    IF Zero(u) THEN "edge"
    ELSE IF Zero(w) THEN "yes"
    ELSE IF Half(u) # Half(w) THEN IF Half(u) < Half(w) THEN "yes" ELSE "no"
    ELSE LET c == u[1]*w[2] - u[2]*w[1] IN IF c > 0 THEN "yes" ELSE IF c < 0 THEN "no" ELSE "edge"
\* a range: [a, b half-angle tangents, ccw]
InR(x, r) == IF r.ccw THEN InCCW(x, DirOf(r.a), DirOf(r.b)) ELSE InCCW(x, DirOf(r.b), DirOf(r.a))
InAny(x, rs) == LET v == {InR(x, rs[i]) : i \in 1..Len(rs)} IN
    IF "yes" \in v THEN "yes" ELSE IF "edge" \in v THEN "edge" ELSE "no"
Both(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "edge" \/ b = "edge" THEN "edge" ELSE "yes"

\* ---- the panel: half sizes e.hx, e.hy in halves of a length unit
OnPanel(e, r) ==
    IF r.k = "edge" THEN "edge" ELSE IF r.k = "miss" THEN "no"
    ELSE IF Farness(r) # "near" THEN "no"
    ELSE LET x == RAbs(Fix(r.x, r.den)) y == RAbs(Fix(r.y, r.den))
             a == (e.hx - 2*e.buf[1])*500000 c == (e.hy - 2*e.buf[2])*500000 IN
         IF x > a + 20 \/ y > c + 20 THEN "no"
         ELSE IF x < a - 20 /\ y < c - 20 THEN "yes" ELSE "edge"

Grain(s, g) == [s EXCEPT !.qc = g.qc, !.tc = g.tc]

\* ---- rotation series
\* the wavelength at the grain, as <<num, den>>, over twice the strained lattice parameter
Kappa(s, e, g) ==
    LET pos == IF e.ec.axis = 0 THEN 0 ELSE g.tc[e.ec.axis] + s.ts[e.ec.axis] - e.ec.at
        n == e.lam[1] * g.v[1] * e.ec.den
        d == e.lam[2] * g.v[2] * 2 * e.a0 * (e.ec.den + e.ec.num * pos)
        k == Gcd2(n, d)
    IN <<n \div k, d \div k>>

Roots(s, e, g, hkl) ==
    LET C == RRot(g.qc)
        X == RRot(QAxis(1, s.chi[1], s.chi[2]))
        b == RRot(s.qb)
        z == MVec(MT(X.m), Col(b.m, 3))
        nz == X.d * b.d
        G == MVec(C.m, hkl)
        N == Dot(hkl, hkl)
        k == Kappa(s, e, g)
        A == k[2] * (G[3]*z[1] - G[1]*z[3])
        B == k[2] * (G[1]*z[1] + G[3]*z[3])
        R == k[1]*N*C.d*nz - k[2]*G[2]*z[2]
        T == A*A + B*B
        disc == T - R*R
        m == IF disc > 0 THEN Isqrt(disc) ELSE 0
        H(sg) == LET sn == A*R + sg*B*m cn == B*R - sg*A*m
                     h == PrimD(<<T + cn, sn>>)
                 IN [h |-> IF h = <<0,0>> THEN <<0,1>> ELSE h, cs |-> PrimD(<<cn, sn>>), t |-> T, cn |-> cn, sn |-> sn]
    IN IF disc < 0 THEN [k |-> "none"]
       ELSE IF disc = 0 \/ m*m # disc \/ T = 0 THEN [k |-> "unmodelled"]
       ELSE [k |-> "two", r |-> <<H(1), H(-1)>>]

RotWant(s, e, g, hkl, rt) ==
    LET sg == Grain(s, g)
        gl == GLab(sg, rt.h, hkl)
        gx == Dot(gl, Xb(s)) gy == Dot(gl, Yb(s)) p == gx*gx + gy*gy
        st == Strike(sg, rt.h, hkl)
        eta == IF p = 0 THEN "edge" ELSE InAny(PrimD(<<gx, gy>>), e.etar)
        ome == InAny(rt.cs, e.omer)
        k == Kappa(s, e, g)
        N == Dot(hkl, hkl)
    IN [in |-> Both(Both(eta, ome), OnPanel(e, st)),
        cos |-> Fix(k[2]*k[2] - 2*k[1]*k[1]*N, k[2]*k[2]),
        eta |-> IF p = 0 THEN <<>> ELSE <<SignedSq(gx, p), SignedSq(gy, p)>>,
        ome |-> <<Fix(rt.cn, rt.t), Fix(rt.sn, rt.t)>>,
        xy |-> IF st.k = "hit" /\ Farness(st) = "near" THEN <<Fix(st.x, st.den), Fix(st.y, st.den)>> ELSE <<>>]

\* an entry: <<id, h, k, l, cos tth, ssq cos eta, ssq sin eta, cos ome, sin ome, x, y, in period (0/1)>>
HKL(o) == <<o[2], o[3], o[4]>>
SameOme(w, o) == RAbs(o[8] - w.ome[1]) <= 50 /\ RAbs(o[9] - w.ome[2]) <= 50
EntryOk(w, o, id) ==
    /\ o[1] = id /\ o[12] = 1
    /\ Near(o[5], w.cos)
    /\ \A i \in 1..Len(w.eta) : Near(o[5+i], w.eta[i])
    /\ Near(o[8], w.ome[1]) /\ Near(o[9], w.ome[2])
    /\ \A i \in 1..Len(w.xy) : Near(o[9+i], w.xy[i])

\* verdict for one reflection of one grain
RotBad(s, e, gi, j) ==
    LET g == e.grains[gi] hkl == e.hkls[j].h out == e.obs.v[gi]
        mine == {i \in 1..Len(out) : HKL(out[i]) = hkl}
        rts == Roots(s, e, g, hkl)
    IN CASE rts.k = "none" -> IF mine = {} THEN {} ELSE {"impossible-reflection"}
         [] rts.k = "unmodelled" -> {}
         [] OTHER ->
            LET w == [r \in 1..2 |-> RotWant(s, e, g, hkl, rts.r[r])]
                at(r) == {i \in mine : SameOme(w[r], out[i])}
            IN (IF \A i \in mine : SameOme(w[1], out[i]) \/ SameOme(w[2], out[i]) THEN {} ELSE {"wrong-rotation"})
               \cup UNION {CASE w[r].in = "edge" -> {}
                             [] w[r].in = "no" -> IF at(r) = {} THEN {} ELSE {"out-of-range"}
                             [] OTHER -> IF at(r) = {} THEN {"missing"}
                                         ELSE IF Cardinality(at(r)) > 1 THEN {"repeated"}
                                         ELSE IF \A i \in at(r) : EntryOk(w[r], out[i], e.hkls[j].id) THEN {} ELSE {"value"} : r \in 1..2}

\* ---- Laue patterns: a sample rotation h, any energy within the ranges e.lams (wavelength bounds <<num, den>>)
LaueWant(s, e, g, hkl) ==
    LET sg == Grain(s, g)
        C == RRot(g.qc) S == RSam(s.chi, e.h) b == RRot(s.qb)
        \* the stretched vector; g.V is the inverse stretch, six integers (11,22,33,23,13,12) over g.Vd
        full == MVec(S.m, StretchV(g.V, MVec(C.m, hkl)))
        f == Gcd3(full)
        G == Prim(full)
        D == C.d * S.d * g.Vd                \* the vector is G * f / (a0 D)
        gz == Dot(G, Zb(s))                  \* times b.d
        N == Dot(G, G)
        \* wavelength = 2 a0 gz D / (f N)
        k0 == Gcd2(D, f)
        k1 == Gcd2(gz, N)
        ln == 2 * e.a0 * (gz \div k1) * (D \div k0)
        ld == (N \div k1) * b.d * (f \div k0)
        k == Gcd2(ln, ld)
        l == <<ln \div k, ld \div k>>
        rng == {LET lo == e.lams[i][1] hi == e.lams[i][2] IN
                  CASE l[1]*lo[2] < lo[1]*l[2] \/ l[1]*hi[2] > hi[1]*l[2] -> "no"
                    [] l[1]*lo[2] = lo[1]*l[2] \/ l[1]*hi[2] = hi[1]*l[2] -> "edge"
                    [] OTHER -> "yes" : i \in 1..Len(e.lams)}
        inr == IF "yes" \in rng THEN "yes" ELSE IF "edge" \in rng THEN "edge" ELSE "no"
        st == StrikeL(sg, e.h, G)
        bk == BackL(s, G)
        dd == <<e.a0 * (D \div k0), f \div k0>>
    IN [in |-> IF st.k = "edge" THEN "edge" ELSE IF gz <= 0 THEN "no" ELSE IF bk.cos >= 999999 THEN "edge" ELSE Both(inr, OnPanel(e, st)),
        cos |-> bk.cos, eta |-> bk.eta, lam |-> IF gz <= 0 THEN 0 ELSE Fix(l[1], l[2]),
        dsq |-> Fix(dd[1]*dd[1], N*dd[2]*dd[2]),
        xy |-> IF st.k = "hit" /\ Farness(st) = "near" THEN <<Fix(st.x, st.den), Fix(st.y, st.den)>> ELSE <<>>]
\* an entry: <<h, k, l, cos tth, ssq cos eta, ssq sin eta, wavelength, d squared, x, y>>
\* reflections given one by one are reported under the name they came with, whichever of hkl and -hkl diffracts
Mate(h) == <<0 - h[1], 0 - h[2], 0 - h[3]>>
LaueOf(s, e, g, hkl) ==
    LET a == LaueWant(s, e, g, hkl) b == LaueWant(s, e, g, Mate(hkl)) IN
    IF e.array /\ a.in = "no" THEN b ELSE a
LaueBad(s, e, gi, j) ==
    LET g == e.grains[gi] hkl == e.hkls[j].h out == e.obs.v[gi]
        mine == {i \in 1..Len(out) : <<out[i][1], out[i][2], out[i][3]>> = hkl}
        w == LaueOf(s, e, g, hkl)
        ok(o) == /\ Near(o[4], w.cos) /\ Near(o[7], w.lam) /\ Near(o[8], w.dsq)
                 /\ \A i \in 1..Len(w.eta) : Near(o[4+i], w.eta[i])
                 /\ \A i \in 1..Len(w.xy) : Near(o[8+i], w.xy[i])
    IN CASE w.in = "edge" -> {}
         [] w.in = "no" -> IF mine = {} THEN {} ELSE {"out-of-range"}
         [] OTHER -> IF mine = {} THEN {"missing"} ELSE IF Cardinality(mine) > 1 THEN {"repeated"}
                     ELSE IF \A i \in mine : ok(out[i]) THEN {} ELSE {"value"}

SimBad(s, e, gi, j) == IF e.op = "rot" THEN RotBad(s, e, gi, j) ELSE LaueBad(s, e, gi, j)

SJudge(s, e) ==
    LET n == Len(e.grains)
        shape == e.obs.k = "v" /\ Len(e.obs.v) = n
        first(o) == IF e.op = "rot" THEN HKL(o) ELSE <<o[1], o[2], o[3]>>
        known == {e.hkls[j].h : j \in 1..Len(e.hkls)}
        bads == [gi \in 1..n |-> [j \in 1..Len(e.hkls) |-> SimBad(s, e, gi, j)]]
        all == UNION {bads[gi][j] : gi \in 1..n, j \in 1..Len(e.hkls)}
        stray == \E gi \in 1..n : \E i \in 1..Len(e.obs.v[gi]) : first(e.obs.v[gi][i]) \notin known
        bad == IF ~shape THEN {e.op \o "-result"} ELSE all \cup (IF stray THEN {"unknown-reflection"} ELSE {})
                    \cup (IF e.obs.inputs THEN {} ELSE {"inputs-changed"})
        wit == IF ~shape THEN {} ELSE {<<gi, j>> \in (1..n) \X (1..Len(e.hkls)) : bads[gi][j] # {}}
    IN [st |-> s, bad |-> bad,
        want |-> IF wit = {} THEN [n |-> 0] ELSE
                 LET x == CHOOSE x \in wit : TRUE IN
                 [n |-> Cardinality(wit), grain |-> x[1], hkl |-> e.hkls[x[2]].h, bad |-> bads[x[1]][x[2]],
                  w |-> IF e.op = "rot" THEN [r \in 1..2 |-> LET rt == Roots(s, e, e.grains[x[1]], e.hkls[x[2]].h) IN
                                     IF rt.k = "two" THEN RotWant(s, e, e.grains[x[1]], e.hkls[x[2]].h, rt.r[r]) ELSE rt]
                        ELSE LaueOf(s, e, e.grains[x[1]], e.hkls[x[2]].h)]]
SBegin(h) == h

----------------------------------------------------------------------------
\* the model's own laws, over small crystals and wavelengths
SimHkls == {<<a, b, c>> : a \in -1..1, b \in -1..1, c \in -1..1} \ {<<0,0,0>>}
SGeo0 == [qd |-> <<1,0,0,0>>, qc |-> <<1,0,0,0>>, qb |-> <<1,0,0,0>>, chi |-> <<1,0>>,
          td |-> <<0,0,-10>>, ts |-> <<0,0,0>>, tc |-> <<0,0,0>>]
SMCStart == {[SGeo0 EXCEPT !.chi = c, !.qb = q] : c \in {<<1,0>>, <<2,1>>}, q \in {<<1,0,0,0>>, <<1,0,1,1>>}}
SFull == <<[a |-> <<0,-1>>, b |-> <<0,1>>, ccw |-> TRUE]>>
SHalves == {<<[a |-> <<1,0>>, b |-> <<1,1>>, ccw |-> TRUE]>>, <<[a |-> <<1,1>>, b |-> <<1,0>>, ccw |-> TRUE]>>}
SEv(l, q) == [op |-> "rot", a0 |-> 1, lam |-> l, ec |-> [axis |-> 0, at |-> 0, num |-> 0, den |-> 1], hx |-> 40, hy |-> 40, buf |-> <<0, 0>>,
              grains |-> <<[qc |-> q, tc |-> <<1,0,2>>, v |-> <<1,1>>]>>, etar |-> SFull, omer |-> SFull]
SMCOps(s) == {[op |-> "try", lam |-> l, q |-> q] : l \in {<<6,5>>, <<8,5>>, <<10,13>>, <<1,2>>}, q \in {<<1,0,0,0>>, <<1,1,1,1>>, <<1,1,1,0>>}}
SMCApply(s, op) == s
SMCSafe(s) == TRUE
SMCSafeStep(s, op) ==
    LET e == SEv(op.lam, op.q) g == e.grains[1] IN
    \A hkl \in SimHkls : LET r == Roots(s, e, g, hkl) IN
       r.k = "two" =>
         \A i \in 1..2 :
           LET rt == r.r[i] gl == GLab(Grain(s, g), rt.h, hkl) w == RotWant(s, e, g, hkl, rt) IN
           \* both are unit vectors and solve the Bragg condition: the ray's two theta is that of the wavelength
           /\ ((rt.cn*rt.cn) + (rt.sn*rt.sn)) = rt.t*rt.t
           /\ Back(Grain(s, g), rt.h, hkl).cos \in (w.cos - 1)..(w.cos + 1)
           /\ Dot(gl, Zb(s)) > 0
           \* the half-angle form is the same angle
           /\ LET d == DirOf(rt.h) IN PrimD(d) = rt.cs
           \* every azimuth lies in exactly one of two complementary ranges, or on their border
           /\ LET v == {InAny(rt.cs, x) : x \in SHalves} IN v = {"yes", "no"} \/ v = {"edge"} \/ "edge" \in v
=============================================================================
