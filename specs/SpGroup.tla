------------------------------- MODULE SpGroup ------------------------------
(***************************************************************************)
(* C13.  Space groups, reflection families, absences, orbits.                *)
(* An operation is <<W11, .., W33, w1, w2, w3>>, translations in 24ths.        *)
(* State: the number of a group and its operations modulo the lattice          *)
(* translations of the cell, generated from its Hall symbol (SgTable).         *)
(***************************************************************************)
EXTENDS SpBase

Family(s, h) == {Row(h, W) : W \in s.laue}
\* no structure of this symmetry scatters into h
Absent(s, h) == \E o \in s.glide : Row(h, o) = h /\ (h[1] * o[10] + h[2] * o[11] + h[3] * o[12]) % 24 # 0
XBegin(h) == LET o == OpsOf(h.sg) p == PG(o) IN
    [sg |-> h.sg, ops |-> o, pg |-> p, laue |-> LaueOf(p), glide |-> {x \in o : SubSeq(x, 10, 12) # <<0, 0, 0>>}]

Inv == <<-1, 0, 0, 0, -1, 0, 0, 0, -1>>
\* positions in 120ths of the cell
OrbitOf(s, v) == {LET c == Col(o, v) IN [i \in 1..3 |-> (c[i] + 5 * o[9 + i]) % 120] : o \in s.ops}
Q(m, h) == m[1] * h[1] * h[1] + m[2] * h[2] * h[2] + m[3] * h[3] * h[3] + 2 * (m[4] * h[2] * h[3] + m[5] * h[1] * h[3] + m[6] * h[1] * h[2])
\* every reflection of the box of half-width R with Q <= N, one half of the sphere
Within(m, N, R) == {h \in {<<a, b, c>> : a \in -R[1]..R[1], b \in -R[2]..R[2], c \in 0..R[3]} : h # <<0, 0, 0>> /\ Q(m, h) <= N}

XJudge(s, e) ==
    LET o == e.obs V(bad, w) == [st |-> s, bad |-> bad, want |-> w] C(ok, x) == IF ok THEN {} ELSE {x} IN
    IF o.k = "err" THEN      \* no list is made when there is no reflection at all
         V(IF e.op = "hkls" /\ \A h \in Within(e.m, e.N, e.R) : Absent(s, h) THEN {} ELSE {e.op \o " fails"}, "no error")
    ELSE CASE e.op = "group" ->
                V(C(Rng(o.ops) = s.ops /\ Distinct(o.ops), "operations") \cup C(Rng(o.pg) = s.pg /\ Distinct(o.pg), "point group") \cup C(Rng(o.laue) = s.laue /\ Distinct(o.laue), "laue group")
                  \cup C(o.centro = (Inv \in s.pg), "centrosymmetric") \cup C(o.symm = (\A W \in s.pg : W \o <<0, 0, 0>> \in s.ops), "symmorphic")
                  \cup C(Rng(o.recip) = {[i \in 1..9 |-> W[CASE i = 1 -> 1 [] i = 2 -> 4 [] i = 3 -> 7 [] i = 4 -> 2 [] i = 5 -> 5 [] i = 6 -> 8 [] i = 7 -> 3 [] i = 8 -> 6 [] OTHER -> 9]] : W \in s.laue}, "reciprocal laue group"), <<Cardinality(s.ops), Cardinality(s.pg), Cardinality(s.laue)>>)
           \* the rotations used for orientations
           [] e.op = "orient" -> LET w == {W \in s.laue : Det(W) = 1} IN V(C(Rng(o.v) = w /\ Distinct(o.v), "orientation symmetry"), w)
           [] e.op = "star" -> LET g == IF e.laue THEN s.laue ELSE s.pg
                                   w == IF e.space = "r" THEN {Row(e.v, W) : W \in g} ELSE {Col(W, e.v) : W \in g} IN
                V(C(Rng(o.v) = w /\ Distinct(o.v), "star"), w)
           [] e.op = "orbit" -> LET w == OrbitOf(s, e.v) IN V(C(Rng(o.v) = w /\ Distinct(o.v) /\ o.n = Cardinality(w), "orbit"), w)
           [] e.op = "allowed" -> LET w == SelectSeq(e.h, LAMBDA h : ~Absent(s, h)) IN V(C(o.v = w, "allowed"), [kept |-> Rng(o.v) \ Rng(w), removed |-> Rng(w) \ Rng(o.v)])
           \* an absent reflection has no intensity
           [] e.op = "power" -> V(C(\A k \in 1..Len(e.h) : Absent(s, e.h[k]) => o.v[k] = 0, "absent reflections scatter"), "0")
           \* one member of each family that is allowed and within the limit, by increasing 1/d
           [] e.op = "hkls" -> LET w == {h \in Within(e.m, e.N, e.R) : ~Absent(s, h)}
                                   got == UNION {Family(s, o.v[k]) : k \in 1..Len(o.v)} IN
                V(C(\A k \in 1..Len(o.v) : Q(e.m, o.v[k]) <= e.N /\ ~Absent(s, o.v[k]), "a reflection too many")
                  \cup C(w \subseteq got, "a reflection is missing")
                  \cup C(\A j, k \in 1..Len(o.v) : (j < k /\ Q(e.m, o.v[j]) = Q(e.m, o.v[k])) => o.v[k] \notin Family(s, o.v[j]), "a family twice")
                  \cup C(\A k \in 1..(Len(o.v) - 1) : Q(e.m, o.v[k]) <= Q(e.m, o.v[k + 1]), "order"), w \ got)

----------------------------------------------------------------------------
MCStart == {XBegin([sg |-> n]) : n \in {1, 2, 4, 5, 14, 19, 43, 62, 70, 88, 96, 110, 122, 141, 144, 152, 155, 161, 167, 169, 178, 194, 198, 205, 206, 212, 214, 220, 227, 230}}
Hs == {<<1, 0, 0>>, <<0, 0, 1>>, <<0, 2, 1>>, <<1, 1, 1>>, <<2, 0, 0>>, <<1, -2, 3>>}
Vs == {<<0, 0, 0>>, <<15, 30, 60>>, <<-7, 13, 131>>}
MCOps(s) == {[op |-> "star", v |-> h, space |-> "r", laue |-> l] : h \in Hs, l \in BOOLEAN} \cup {[op |-> "orbit", v |-> v] : v \in Vs}
MCApply(s, e) == s
\* laws of the model: a group; absences belong to families; orders divide
MCSafe(s) == /\ \A g \in Rng(SgGen[s.sg]) : \A o \in s.ops : Mul(g, o) \in s.ops
             /\ \A W \in s.laue : Det(W) \in {1, -1}
             /\ Cardinality(s.ops) % Cardinality(s.pg) = 0
MCSafeStep(s, e) == IF e.op = "star" THEN Cardinality(s.laue) % Cardinality(Family(s, e.v)) = 0 /\ \A h \in Family(s, e.v) : Absent(s, h) = Absent(s, e.v)
                    ELSE LET w == OrbitOf(s, e.v) IN Cardinality(s.ops) % Cardinality(w) = 0 /\ \A v \in w : OrbitOf(s, v) = w
=============================================================================
