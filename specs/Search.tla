------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* C26.  The search for grains: fibres of orientations that put a crystal    *)
(* direction onto a sample direction, the seeds made from the spots of maps,  *)
(* and the grouping of scored orientations into grains.                      *)
(* An orientation on a fibre of n divisions is its phase 0..n-1.  A spot is a *)
(* list of pixels <<row, column, counts>> of a map.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Quat

Rng(q) == {q[k] : k \in 1..Len(q)}
\* rotations of the cube as <<permutation, signs>>: signed permutation matrices
Perms == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
Even(p) == p[2] = (p[1] % 3) + 1
SPM(p, s) == [i \in 1..3 |-> [j \in 1..3 |-> IF p[i] = j THEN s[i] ELSE 0]]
Cube == {x \in Perms \X [1..3 -> {-1, 1}] : (IF Even(x[1]) THEN 1 ELSE -1) * x[2][1] * x[2][2] * x[2][3] = 1}
Rots(t) == LET G == CASE t = "oh" -> Cube
                      [] t = "th" -> {x \in Cube : Even(x[1])}
                      [] t = "d4h" -> {x \in Cube : x[1][3] = 3}
                      [] t = "c4h" -> {x \in Cube : x[1][3] = 3 /\ x[2][3] = 1}
                      [] t = "d2h" -> {x \in Cube : x[1] = <<1, 2, 3>>}
                      [] t = "c2h" -> {x \in Cube : x[1] = <<1, 2, 3>> /\ x[2][2] = 1}
                      [] OTHER -> {<<<<1, 2, 3>>, <<1, 1, 1>>>>}
           IN {SPM(x[1], x[2]) : x \in G}
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* the largest cosine (times the norms) between s and the equivalents of c, turned by q
Near(s, q, c, t, cs) == LET D == {Dot(s, MVec(QMat(q), MVec(g, c))) : g \in Rots(t)}
                            A == IF cs THEN D \cup {-d : d \in D} ELSE D
                        IN CHOOSE m \in A : \A d \in A : d <= m

\* spots
RECURSIVE Total(_, _)
Total(px, k) == IF px = <<>> THEN 0 ELSE (IF k = 0 THEN 1 ELSE px[1][k]) * px[1][3] + Total(Tail(px), k)
\* centre: <<row, column>> times the counts
Above(b, thr) == SelectSeq(b, LAMBDA p : p[3] > thr)
Centre(b) == <<Total(b, 1), Total(b, 2), Total(b, 0)>>
\* spots of the asked maps that exceed the threshold: <<map, spot>>
Seeds(h, e) == {<<m, k>> \in (1..Len(h.maps)) \X (1..9) : k <= Len(h.maps[m]) /\ (\E i \in 1..Len(e.maps) : e.maps[i] = m) /\ Above(h.maps[m][k], e.thr) # <<>>}

\* grouping
Good(e) == {i \in 1..Len(e.members) : e.members[i].s > e.thr}
Of(e, g) == {i \in Good(e) : e.members[i].g = g}
Need(e) == IF Cardinality(Good(e)) <= 1 \/ e.alg = "fclusterdata" \/ e.grid THEN 1 ELSE e.min
Grains(e) == {g \in {e.members[i].g : i \in Good(e)} : Cardinality(Of(e, g)) >= Need(e)}
Order(e) == SelectSeq([i \in 1..Len(e.members) |-> i], LAMBDA i : i \in Good(e))

XBegin(h) == h
XJudge(h, e) ==
    LET o == e.obs V(bad, w) == [st |-> h, bad |-> bad, want |-> w]
        If(ok, n) == IF ok THEN {} ELSE {n} IN
    IF o.k = "err" THEN V({"error"}, "no error")
    ELSE CASE e.op = "fiber" ->
            V(If(o.unit, "unit quaternions") \cup If(~e.sym \/ o.fz, "fundamental region")
              \cup If(IF e.unique THEN o.n <= e.ndiv ELSE o.n = e.ndiv, "count")
              \cup If(\A i \in 1..Len(o.ph) : o.ph[i] # <<>>, "off the fibre")
              \cup If(UNION {Rng(o.ph[i]) : i \in 1..Len(o.ph)} = 0..(e.ndiv - 1), "divisions")
              \cup If(e.sym \/ \A i, j \in 1..Len(o.ph) : i # j => Rng(o.ph[i]) \cap Rng(o.ph[j]) = {}, "divisions repeat"), e.ndiv)
      [] e.op = "distance" ->
            LET w == [k \in 1..Len(e.q) |-> Near(e.s, e.q[k], e.c, h.group, e.cs)] IN V(If(o.d = w, "distance"), w)
      [] e.op = "seeds" ->
            LET w == Seeds(h, e)
                Of2(x) == UNION {Rng(o.own[i].ph) : i \in {j \in 1..Len(o.own) : o.own[j].spot = x}} IN
            V(If(\A i \in 1..Len(o.at) : LET b == Above(h.maps[o.at[i].spot[1]][o.at[i].spot[2]], e.thr) c == Centre(b) IN
                     \/ b = <<>> \/ (o.at[i].c[1] * c[3] = c[1] * o.at[i].c[3] /\ o.at[i].c[2] * c[3] = c[2] * o.at[i].c[3]), "machinery: centre")
              \cup If(\A x \in w : Of2(x) = 0..(e.ndiv - 1), "orientations of a spot are missing")
              \cup If(\A i \in 1..o.n : \E j \in 1..Len(o.own) : o.own[j].i = i /\ o.own[j].spot \in w, "an orientation belongs to no spot")
              \cup If(o.n <= e.ndiv * Cardinality(w), "too many orientations") \cup If(o.fz, "fundamental region") \cup If(o.same, "the maps were changed"), w)
      [] e.op = "cluster" ->
            LET w == Grains(e) ix == Order(e) IN
            V(If(Len(o.got) = Cardinality(w) /\ Rng(o.got) = w, "grains") \cup
              (IF e.alg \notin {"fclusterdata", "sph-dbscan"} THEN {} ELSE
               If(Len(o.label) = Len(ix) /\ \A i, j \in 1..Len(ix) :
                    LET g == e.members[ix[i]].g f == e.members[ix[j]].g IN
                    /\ (o.label[i] = -1) = (g \notin w)
                    /\ g \in w /\ f \in w => ((o.label[i] = o.label[j]) = (g = f)), "labels")), w)

----------------------------------------------------------------------------
\* a small world to check the model itself
B1 == <<<<2, 3, 5>>>>
B2 == <<<<5, 7, 4>>, <<5, 8, 4>>>>
B3 == <<<<9, 1, 1>>, <<9, 2, 6>>>>
MCStart == {[group |-> t, maps |-> m] : t \in {"oh", "th", "d4h", "c4h", "d2h", "c2h", "ci"}, m \in {<<<<B1>>, <<B2, B3>>, <<>>>>, <<<<>>, <<B3>>, <<B1, B2>>>>}}
Cs == {<<1, 0, 0>>, <<1, 1, 0>>, <<1, 2, 3>>, <<0, -1, 2>>}
MCOps(h) == {[op |-> "distance", c |-> c, s |-> s, q |-> <<q>>, cs |-> x] : c \in Cs, s \in {<<0, 0, 1>>, <<2, -1, 3>>}, q \in {<<1, 0, 0, 0>>, <<1, 2, 0, 0>>, <<3, 1, -1, 2>>}, x \in BOOLEAN}
            \cup {[op |-> "fiber", c |-> c, s |-> s, ndiv |-> n, sym |-> x, unique |-> u] : c \in Cs, s \in {<<0, 0, 1>>, <<-1, -1, 0>>}, n \in {2, 5}, x \in BOOLEAN, u \in BOOLEAN}
            \cup {[op |-> "seeds", maps |-> m, thr |-> t, ndiv |-> 3] : m \in {<<1>>, <<2>>, <<3, 1>>, <<1, 2, 3>>}, t \in {0, 1, 4, 5}}
            \cup {[op |-> "cluster", alg |-> a, min |-> k, grid |-> FALSE, thr |-> t, members |-> [i \in 1..5 |-> [g |-> 1 + (i % p), s |-> 40 + 10 * i]]] :
                    a \in {"dbscan", "ort-dbscan", "sph-dbscan", "fclusterdata"}, k \in {1, 2, 3}, p \in {1, 2, 3}, t \in {0, 60, 80, 90}}
MCApply(h, e) == h
MCSafe(h) == LET G == Rots(h.group) IN
    /\ \A A, B \in G : MMul(A, B) \in G
    /\ Cardinality(G) = (CASE h.group = "oh" -> 24 [] h.group = "th" -> 12 [] h.group = "d4h" -> 8 [] h.group = "c4h" -> 4 [] h.group = "d2h" -> 4 [] h.group = "c2h" -> 2 [] OTHER -> 1)
    \* the distance depends on the classes only
    /\ \A c \in Cs, g \in G, x \in BOOLEAN : Near(<<2, -1, 3>>, <<3, 1, -1, 2>>, c, h.group, x) = Near(<<2, -1, 3>>, <<3, 1, -1, 2>>, MVec(g, c), h.group, x)
    /\ \A c \in Cs : Near(<<2, -1, 3>>, <<3, 1, -1, 2>>, c, h.group, FALSE) <= Near(<<2, -1, 3>>, <<3, 1, -1, 2>>, c, h.group, TRUE)
MCSafeStep(h, e) ==
    CASE e.op = "cluster" -> \A g \in Grains(e) : Of(e, g) # {}
      [] e.op = "seeds" -> \A x \in Seeds(h, e) : Seeds(h, [e EXCEPT !.thr = 0]) \cap {x} = {x}
      [] OTHER -> TRUE
=============================================================================
