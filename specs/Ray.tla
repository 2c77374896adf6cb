--------------------------------- MODULE Ray ---------------------------------
(***************************************************************************)
(* C21.  Diffraction geometry, exactly.  The state is the geometry of the   *)
(* experiment: rotations of the panel (qd), of the crystal (qc), of the     *)
(* beam frame (qb) and the inclination (chi) as integer quaternions or      *)
(* half-angle tangents, and integer translations td, ts, tc.  Reciprocal    *)
(* vectors are integer.  Positions are compared as fixed-point numbers.     *)
(***************************************************************************)
EXTENDS Quat, FiniteSets

RAbs(x) == IF x < 0 THEN -x ELSE x
RSgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Gcd2(a, b) == Gcd(RAbs(a), RAbs(b))
Gcd3(v) == Gcd2(Gcd2(v[1], v[2]), v[3])
Prim(v) == LET g == Gcd3(v) IN IF g = 0 THEN v ELSE [i \in 1..3 |-> v[i] \div g]
Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
VAdd(u, v) == [i \in 1..3 |-> u[i] + v[i]]
VSub(u, v) == [i \in 1..3 |-> u[i] - v[i]]
VScale(k, v) == [i \in 1..3 |-> k * v[i]]
Cross(u, v) == <<u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3], u[1]*v[2] - u[2]*v[1]>>

\* a rotation as integer matrix m over d, in lowest terms
RRot(q) == LET m == QMat(q) n == QNorm(q)
               g == Gcd2(n, Gcd2(Gcd3(m[1]), Gcd2(Gcd3(m[2]), Gcd3(m[3]))))
           IN [m |-> [i \in 1..3 |-> [j \in 1..3 |-> m[i][j] \div g]], d |-> n \div g]
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>

\* num/den as an integer number of millionths (truncated towards minus infinity)
RECURSIVE Digits(_, _, _, _)
Digits(acc, rem, den, k) == IF k = 0 THEN acc ELSE Digits(acc*10 + ((rem*10) \div den), (rem*10) % den, den, k - 1)
FixN(num, den, k) == LET n == IF den < 0 THEN -num ELSE num
                         d == RAbs(den)
                     IN Digits(n \div d, n % d, d, k)
Fix(num, den) == FixN(num, den, 6)
FAR == 2000
Near(o, w) == o \in (w - 3)..(w + 3)

\* sample rotation: chi about X, then omega about Y; both half-angle tangents <<m, n>>
RSam(chi, h) == RRot(QMul(QAxis(1, chi[1], chi[2]), QAxis(2, h[1], h[2])))

\* reciprocal vector g (crystal frame) in the lab, up to a positive factor
GLab(s, h, g) == Prim(MVec(RSam(s.chi, h).m, MVec(RRot(s.qc).m, g)))
Zb(s) == Col(RRot(s.qb).m, 3)      \* towards the source, up to a positive factor
Xb(s) == Col(RRot(s.qb).m, 1)
Yb(s) == Col(RRot(s.qb).m, 2)

\* diffracted direction: the incoming beam -Z mirrored by the plane normal to g
Diffr(s, gl) == Prim(VSub(VScale(2*Dot(gl, Zb(s)), gl), VScale(Dot(gl, gl), Zb(s))))

\* where the ray meets the panel: [k |-> "hit", x, y (rational, common den)] / "miss" / "edge"
StrikeL(s, h, gl) ==
    LET S == RSam(s.chi, h)
        D == RRot(s.qd)
        v == Prim(MVec(MT(D.m), Diffr(s, gl)))
        od == MVec(MT(D.m), VAdd(VScale(S.d, VSub(s.ts, s.td)), MVec(S.m, s.tc)))
        den == S.d * D.d
    IN IF v[3] = 0 \/ od[3] = 0 THEN [k |-> "edge"]
       ELSE IF RSgn(v[3]) = RSgn(od[3]) THEN [k |-> "miss"]
       ELSE [k |-> "hit", x |-> od[1]*v[3] - v[1]*od[3], y |-> od[2]*v[3] - v[2]*od[3], den |-> v[3]*den]

Strike(s, h, g) == StrikeL(s, h, GLab(s, h, g))

Farness(r) == IF RAbs(r.x) \div RAbs(r.den) > FAR + 10 \/ RAbs(r.y) \div RAbs(r.den) > FAR + 10 THEN "far"
              ELSE IF RAbs(r.x) \div RAbs(r.den) < FAR - 10 /\ RAbs(r.y) \div RAbs(r.den) < FAR - 10 THEN "near" ELSE "either"

\* observation <<kind, x, y>>: 0 undefined, 1 position in millionths, 2 beyond FAR
StrikeOk(r, o) ==
    CASE r.k = "edge" -> TRUE
      [] r.k = "miss" -> o[1] = 0
      [] OTHER -> LET f == Farness(r) IN
           CASE f = "far" -> o[1] = 2
             [] f = "either" -> o[1] \in {1, 2}
             [] OTHER -> o[1] = 1 /\ Near(o[2], Fix(r.x, r.den)) /\ Near(o[3], Fix(r.y, r.den))

SignedSq(x, tot) == Fix(RSgn(x) * x * x, tot)

\* what mapping a position back must give, for the reflection that made it:
\* cosine of two theta, signed squares of the azimuth's cosine and sine, signed squares of the lab normal
BackL(s, gl) ==
    LET z == Zb(s)
        gz == Dot(gl, z) zz == Dot(z, z) N == Dot(gl, gl)
        gx == RSgn(gz) * Dot(gl, Xb(s)) gy == RSgn(gz) * Dot(gl, Yb(s))
        p == gx*gx + gy*gy
    IN [cos |-> Fix(N*zz - 2*gz*gz, N*zz),
        eta |-> IF p = 0 THEN <<>> ELSE <<SignedSq(gx, p), SignedSq(gy, p)>>,
        g |-> IF gz = 0 \/ p = 0 THEN <<>> ELSE [i \in 1..3 |-> SignedSq(RSgn(gz) * gl[i], N)]]
Back(s, h, g) == BackL(s, GLab(s, h, g))
BackOk(w, o) ==
    /\ Near(o[1], w.cos)
    /\ \A i \in 1..Len(w.eta) : (w.cos < 1000000 /\ w.cos > -1000000) => Near(o[1 + i], w.eta[i])
    /\ \A i \in 1..Len(w.g) : Near(o[3 + i], w.g[i])

\* angles to vectors: theta, eta, omega as half-angle tangents; e[1] = theta/... see below
\* for a reciprocal vector: (cos th cos eta, cos th sin eta, sin th) in the beam frame
\* for a direction: (sin 2th cos eta, sin 2th sin eta, -cos 2th)
CS(h) == [c |-> h[1]*h[1] - h[2]*h[2], s |-> 2*h[1]*h[2], d |-> h[1]*h[1] + h[2]*h[2]]
AngVec(s, kind, a) ==
    LET th == CS(a[1]) et == CS(a[2])
        loc == IF kind = "g" THEN [v |-> <<th.c*et.c, th.c*et.s, th.s*et.d>>, d |-> th.d*et.d]
               ELSE [v |-> <<2*th.s*th.c*et.c, 2*th.s*th.c*et.s, -((th.c*th.c - th.s*th.s)*et.d)>>, d |-> th.d*th.d*et.d]
        g0 == Gcd2(Gcd3(loc.v), loc.d)
        l == [v |-> [i \in 1..3 |-> loc.v[i] \div g0], d |-> loc.d \div g0]
        B == RRot(s.qb) S == RSam(s.chi, a[3]) C == RRot(s.qc)
        lab == MVec(B.m, l.v)
        w == MVec(MT(C.m), MVec(MT(S.m), lab))
        den == l.d * B.d * S.d * C.d
    IN [i \in 1..3 |-> Fix(w[i], den)]

\* rotation angles of the Bragg condition.  e.B integer basis over e.db, e.V six integers over e.dv
\* (inverse stretch 11,22,33,23,13,12), wavelength e.lam[1]/e.lam[2]
StretchV(V, x) == <<V[1]*x[1] + V[6]*x[2] + V[5]*x[3], V[6]*x[1] + V[2]*x[2] + V[4]*x[3], V[5]*x[1] + V[4]*x[2] + V[3]*x[3]>>
\* a strained reciprocal-lattice vector in the lab, up to a positive factor
GLabB(s, h, e, hkl) == Prim(MVec(RSam(s.chi, h).m, StretchV(e.V, MVec(RRot(s.qc).m, MVec(e.B, hkl)))))
Osc(s, e, hkl) ==
    LET C == RRot(s.qc)
        G == StretchV(e.V, MVec(C.m, MVec(e.B, hkl)))
        D == e.dv * C.d * e.db
        X == RRot(QAxis(1, s.chi[1], s.chi[2]))
        b == RRot(s.qb)
        z == MVec(MT(X.m), Col(b.m, 3))
        n == X.d * b.d          \* |z| = n
        a1 == G[3]*z[1] - G[1]*z[3]
        b1 == G[1]*z[1] + G[3]*z[3]
        GG == Dot(G, G)
        \* a1 sin + b1 cos = rhs, rhs = lam |G|^2 n / (2 D) - G2 z2
        num == e.lam[1] * GG * n den == 2 * e.lam[2] * D
        rhs4 == FixN(num, den, 4) - 10000*G[2]*z[2]
        c4 == (4 * num) \div den - 4*G[2]*z[2]
    IN [a |-> a1, b |-> b1, rhs4 |-> rhs4, c4 |-> c4, amp |-> 16*(a1*a1 + b1*b1), G |-> G, X |-> X, bm |-> b,
        cos |-> Fix(4*e.lam[2]*e.lam[2]*D*D - 2*e.lam[1]*e.lam[1]*GG, 4*e.lam[2]*e.lam[2]*D*D)]
Solvable(w) == LET c == RAbs(w.c4) IN
    IF (c + 2)*(c + 2) < w.amp THEN "yes" ELSE IF c > 2 /\ (c - 2)*(c - 2) > w.amp THEN "no" ELSE "either"
\* an observed solution: <<cos tth (1e6), cos eta (1e4), sin eta (1e4), cos ome (1e4), sin ome (1e4)>>
OscRoot(w, o) ==
    LET c == o[4] sn == o[5] IN
    /\ RAbs(c*c + sn*sn - 100000000) <= 30000
    /\ RAbs(w.a*sn + w.b*c - w.rhs4) <= RAbs(w.a) + RAbs(w.b) + 2
    /\ Near(o[1], w.cos)
    /\ LET Xp == MVec(MT(w.X.m), Col(w.bm.m, 1)) Yp == MVec(MT(w.X.m), Col(w.bm.m, 2))
           Gr == <<c*w.G[1] + sn*w.G[3], 10000*w.G[2], c*w.G[3] - sn*w.G[1]>>
           gx == Dot(Gr, Xp) \div 100 gy == Dot(Gr, Yp) \div 100
           m == RAbs(gx) + RAbs(gy)
       IN m < 600 \/ (/\ RAbs(o[2]*gy - o[3]*gx) <= 2*m + 20100 + 200*w.X.d*w.bm.d*(RAbs(w.G[1]) + RAbs(w.G[2]) + RAbs(w.G[3]))
                     /\ o[2]*gx + o[3]*gy > 0)
OscOk(w, o) ==
    LET sv == Solvable(w) IN
    \/ sv = "either"
    \/ sv = "no" /\ o.k = "nan"
    \/ /\ sv = "yes" /\ o.k = "v"
       /\ OscRoot(w, o.r[1]) /\ OscRoot(w, o.r[2])
       \* the two are different solutions: on opposite sides of the axis (a, b)
       /\ LET t1 == (w.b*o.r[1][5] - w.a*o.r[1][4]) t2 == (w.b*o.r[2][5] - w.a*o.r[2][4])
              tol == 2*(RAbs(w.a) + RAbs(w.b))
          IN (t1 > -tol /\ t2 < tol) \/ (t1 < tol /\ t2 > -tol)

HOf(e, i) == IF Len(e.hs) = 1 THEN e.hs[1] ELSE e.hs[i]

XBegin(h) == h
Next(s, e) == IF e.op = "geo" THEN [f \in DOMAIN s |-> IF f \in DOMAIN e.set THEN e.set[f] ELSE s[f]] ELSE s

BadAt(P(_), n) == {i \in 1..n : ~P(i)}
XJudge(s, e) ==
    LET n == CASE e.op \in {"xy", "inv", "det", "xyb", "xym"} -> Len(e.gs) [] e.op \in {"ag", "ad"} -> Len(e.angs)
               [] e.op = "osc" -> Len(e.hkls) [] OTHER -> 0
        bads == CASE e.op = "xy" -> LET P(i) == StrikeOk(Strike(s, HOf(e, i), e.gs[i]), e.obs.v[i]) IN BadAt(P, n)
                  [] e.op = "det" -> LET P(i) == LET r == Strike(s, e.hs[1], e.gs[i]) IN
                                            r.k # "hit" \/ Farness(r) # "near" \/ StrikeOk(r, e.obs.v[i]) IN BadAt(P, n)
                  [] e.op = "xyb" -> LET P(i) == StrikeOk(StrikeL(s, HOf(e, i), GLabB(s, HOf(e, i), e, e.gs[i])), e.obs.v[i]) IN BadAt(P, n)
                  [] e.op = "xym" -> LET P(i) == \A m \in 1..Len(e.tcs) :
                                            StrikeOk(Strike([s EXCEPT !.tc = e.tcs[m]], HOf(e, i), e.gs[i]), e.obs.v[i][m]) IN BadAt(P, n)
                  [] e.op = "inv" -> LET P(i) == LET r == Strike(s, e.hs[1], e.gs[i]) IN
                                            r.k # "hit" \/ (e.obs.v[i][1] = -9999999 /\ Farness(r) # "near") \/ BackOk(Back(s, e.hs[1], e.gs[i]), e.obs.v[i]) IN BadAt(P, n)
                  [] e.op \in {"ag", "ad"} -> LET P(i) == LET w == AngVec(s, IF e.op = "ag" THEN "g" ELSE "d", e.angs[i]) IN
                                                    \A j \in 1..3 : Near(e.obs.v[i][j], w[j]) IN BadAt(P, n)
                  [] e.op = "osc" -> LET P(i) == OscOk(Osc(s, e, e.hkls[i]), e.obs.v[i]) IN BadAt(P, n)
                  [] OTHER -> {}
        shape == n = 0 \/ (e.obs.k = "v" /\ Len(e.obs.v) = n)
        bad == IF ~shape THEN {e.op \o "-result"}
               ELSE (IF bads = {} THEN {} ELSE {e.op})
                    \cup (IF n > 0 /\ ~e.obs.batch THEN {e.op \o "-batch"} ELSE {})
        ex == IF ~shape \/ bads = {} THEN 0 ELSE CHOOSE i \in bads : \A j \in bads : i <= j
    IN [st |-> Next(s, e), bad |-> bad,
        want |-> [first |-> ex, count |-> IF shape THEN Cardinality(bads) ELSE 0,
                  w |-> IF ex = 0 THEN "none"
                        ELSE CASE e.op \in {"xy", "det", "xym"} -> Strike(s, HOf(e, ex), e.gs[ex])
                               [] e.op = "xyb" -> StrikeL(s, HOf(e, ex), GLabB(s, HOf(e, ex), e, e.gs[ex]))
                               [] e.op = "inv" -> Back(s, e.hs[1], e.gs[ex])
                               [] e.op \in {"ag", "ad"} -> AngVec(s, IF e.op = "ag" THEN "g" ELSE "d", e.angs[ex])
                               [] OTHER -> Osc(s, e, e.hkls[ex])]]

----------------------------------------------------------------------------
Rots == {<<1,0,0,0>>, <<1,1,0,0>>, <<1,0,1,1>>, <<1,1,1,1>>}
Geo0 == [qd |-> <<1,0,0,0>>, qc |-> <<1,0,0,0>>, qb |-> <<1,0,0,0>>, chi |-> <<1,0>>,
         td |-> <<1,-2,-10>>, ts |-> <<0,0,0>>, tc |-> <<0,0,0>>]
MCStart == {[Geo0 EXCEPT !.qb = q] : q \in Rots}
MCOps(s) ==
    {[op |-> "geo", set |-> [qd |-> q]] : q \in Rots} \cup {[op |-> "geo", set |-> [qc |-> q]] : q \in Rots}
    \cup {[op |-> "geo", set |-> [chi |-> <<1,1>>]], [op |-> "geo", set |-> [ts |-> <<1,2,-1>>]],
          [op |-> "geo", set |-> [tc |-> <<2,0,1>>]], [op |-> "geo", set |-> [td |-> <<3,0,8>>]]}
MCApply(s, op) == Next(s, op)
MCGs == {<<0,0,1>>, <<1,0,2>>, <<1,-2,2>>, <<0,3,-1>>, <<2,1,1>>}
MCSafe(s) ==
    \A g \in MCGs : \A h \in {<<1,0>>, <<1,-1>>} :
        LET gl == GLab(s, h, g) d == Diffr(s, gl) z == Zb(s) r == Strike(s, h, g) IN
        \* elastic, and mirrored: same length as the beam, opposite component along g, same plane
        /\ Gcd3(d) = 1
        /\ LET N == Dot(gl, gl)
               u == VSub(VScale(2*Dot(gl, z), gl), VScale(N, z))
           IN /\ Dot(u, u) = N * N * Dot(z, z)
              /\ Dot(u, gl) = N * Dot(z, gl)
              /\ Dot(Cross(d, z), gl) = 0 /\ Dot(d, u) > 0
        \* the opposite reciprocal vector mirrors in the same plane
        /\ Diffr(s, GLab(s, h, VScale(-1, g))) = d
        /\ Strike(s, h, VScale(-1, g)) = r
        \* turning crystal and sample oppositely about a common axis changes nothing
        /\ Back(s, h, g).cos = Back(s, h, VScale(-1, g)).cos
        \* a hit lies on the ray: (P - o) is parallel to d, with positive factor
        /\ r.k = "hit" =>
              LET S == RSam(s.chi, h) D == RRot(s.qd)
                  od == MVec(MT(D.m), VAdd(VScale(S.d, VSub(s.ts, s.td)), MVec(S.m, s.tc)))
                  den == S.d * D.d
                  v == Prim(MVec(MT(D.m), d))
                  \* (x/den - od/den0) * v3 = -od3 * v_x
                  k == r.den \div den
              IN /\ r.x - k*od[1] = -(od[3] * v[1]) /\ r.y - k*od[2] = -(od[3]*v[2])
                 /\ RSgn(-od[3]) = RSgn(v[3])
MCSafeStep(s, op) ==
    \* moving or turning the panel does not change what is diffracted
    (op.op = "geo" /\ DOMAIN op.set \subseteq {"qd", "td"}) =>
        \A g \in MCGs : Diffr(s, GLab(s, <<1,0>>, g)) = Diffr(Next(s, op), GLab(Next(s, op), <<1,0>>, g))
=============================================================================
