------------------------------- MODULE Planes -------------------------------
(***************************************************************************)
(* C05.  Plane data: a fixed list of reflections st.H (Miller indices), a   *)
(* lattice given by its integer reciprocal metric st.met = <<A,..,F>>        *)
(*   Q(hkl) = A h^2 + B k^2 + C l^2 + D kl + E hl + F hk   (1/d^2 in units),  *)
(* a wavelength given by ql ((2/lambda)^2 = ql + 1/2), an angle limit         *)
(* mx = <<n, d>> with sin^2(tThMax/2) = n/d (or <<>>), a set ex of excluded   *)
(* reflections and structure factors sf by reflection.  Reflections are      *)
(* numbered from 0 in stored order; `order` is the current order by angle.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Q(m, h) == m[1]*h[1]*h[1] + m[2]*h[2]*h[2] + m[3]*h[3]*h[3]
             + m[4]*h[2]*h[3] + m[5]*h[1]*h[3] + m[6]*h[1]*h[2]
N(s) == Len(s.H)
Ids(s) == 0..(N(s) - 1)
QI(s, i) == Q(s.met, s.H[i + 1])
Diffracts(s, i) == QI(s, i) <= s.ql
\* Q above the limit: Q/(ql + 1/2) > n/d
Beyond(s, i) == s.mx # <<>> /\ (~Diffracts(s, i) \/ 2 * QI(s, i) * s.mx[2] > s.mx[1] * (2 * s.ql + 1))
Hidden(s, i) == i \in s.ex \/ Beyond(s, i)

IsPerm(o, s) == Len(o) = N(s) /\ {o[k] : k \in 1..Len(o)} = Ids(s)
Before(s, i, j) == Diffracts(s, i) /\ (~Diffracts(s, j) \/ QI(s, i) <= QI(s, j))
LegalOrder(o, s) ==
    IF s.sorted THEN IsPerm(o, s) /\ \A k \in 1..(Len(o) - 1) : (Before(s, o[k], o[k + 1]) \/ (~Diffracts(s, o[k]) /\ ~Diffracts(s, o[k + 1])))
    ELSE o = [k \in 1..N(s) |-> k - 1]
\* one legal order, for the exploration: by Q, then by number
Rank(s, i) == Cardinality({j \in Ids(s) : IF Diffracts(s, j) /\ Diffracts(s, i) THEN QI(s, j) < QI(s, i) \/ (QI(s, j) = QI(s, i) /\ j < i)
                                          ELSE Diffracts(s, j) \/ (~Diffracts(s, i) /\ j < i)})
Canonical(s) == IF s.sorted THEN [k \in 1..N(s) |-> CHOOSE i \in Ids(s) : Rank(s, i) = k - 1]
                ELSE [k \in 1..N(s) |-> k - 1]

----------------------------------------------------------------------------
\* Laue symmetry acting on Miller indices
Gens(g) ==
    CASE g = "ci" -> {}
         [] g = "c2h" -> {"two_y"}
         [] g = "d2h" -> {"two_y", "two_z"}
         [] g = "c4h" -> {"four_z"}
         [] g = "d4h" -> {"four_z", "two_x"}
         [] g = "s6" -> {"three_z"}
         [] g = "d3d" -> {"three_z", "two_a"}
         [] g = "c6h" -> {"six_z"}
         [] g = "d6h" -> {"six_z", "two_a"}
         [] g = "th" -> {"three_d", "two_z"}
         [] g = "oh" -> {"three_d", "four_z"}
Act(n, h) ==
    CASE n = "two_y" -> <<-h[1], h[2], -h[3]>>
      [] n = "two_z" -> <<-h[1], -h[2], h[3]>>
      [] n = "four_z" -> <<-h[2], h[1], h[3]>>
      [] n = "three_z" -> <<h[2], -h[1] - h[2], h[3]>>
      [] n = "six_z" -> <<h[1] + h[2], -h[1], h[3]>>
      [] n = "two_a" -> <<h[1], -h[1] - h[2], -h[3]>>
      [] n = "three_d" -> <<h[2], h[3], h[1]>>
      [] n = "two_x" -> <<h[1], -h[2], -h[3]>>
RECURSIVE Close(_, _)
Close(S, g) == LET T == S \cup {Act(n, h) : n \in Gens(g), h \in S} IN IF T = S THEN S ELSE Close(T, g)
\* centrosymmetric family of a reflection
Orbit(g, h) == Close({h, <<-h[1], -h[2], -h[3]>>}, g)
\* the metric is one the Laue group leaves unchanged
Invariant(g, m, h) == \A x \in Orbit(g, h) : Q(m, x) = Q(m, h)

----------------------------------------------------------------------------
RECURSIVE MaxSeq(_)
MaxSeq(x) == IF Len(x) = 1 THEN x[1] ELSE LET r == MaxSeq(Tail(x)) IN IF x[1] > r THEN x[1] ELSE r

At(o, k) == o[k + 1]
\* operations; positions refer to the order st.order shown before the operation
Do(s, e) ==
    CASE e.op = "new" -> s
      [] e.op = "none" -> [s EXCEPT !.ex = {}]
      [] e.op = "mask" -> [s EXCEPT !.ex = {At(s.order, k) : k \in {k \in Ids(s) : e.m[k + 1]}}]
      [] e.op = "idx" -> [s EXCEPT !.ex = {At(s.order, k) : k \in {e.i[j] : j \in 1..Len(e.i)}}]
      [] e.op = "range" -> [s EXCEPT !.ex = {At(s.order, k) : k \in {k \in Ids(s) : \E j \in 1..Len(e.r) : k >= e.r[j][1] /\ k < e.r[j][2]}}]
      [] e.op = "lparms" -> [s EXCEPT !.met = e.met]
      [] e.op = "laue" -> [s EXCEPT !.met = e.met, !.grp = e.grp]
      [] e.op = "wave" -> [s EXCEPT !.ql = e.ql]
      [] e.op = "max" -> [s EXCEPT !.mx = e.mx]
      [] e.op = "sf" -> [s EXCEPT !.sf = [k \in 1..N(s) |-> e.v[(CHOOSE p \in 1..N(s) : s.order[p] = k - 1)]]]
      [] e.op = "copy" -> [s EXCEPT !.sf = <<>>]
      [] e.op = "clone" -> s
      [] e.op = "width" -> s
      \* limits: qhi (spacing below dmin), qlo (above dmax) against Q + 1/2; tlo/thi rational sin^2;
      \* slo/shi half-integers against the structure factor; pv/plo/phi intensity weights
      [] e.op = "exclude" ->
           [s EXCEPT !.mx = <<>>,
                     !.ex = {i \in Ids(s) :
                        \/ e.qhi # <<>> /\ QI(s, i) > e.qhi[1]
                        \/ e.qlo # <<>> /\ QI(s, i) <= e.qlo[1]
                        \/ e.tlo # <<>> /\ Diffracts(s, i) /\ 2 * QI(s, i) * e.tlo[2] < e.tlo[1] * (2 * s.ql + 1)
                        \/ e.thi # <<>> /\ Diffracts(s, i) /\ 2 * QI(s, i) * e.thi[2] > e.thi[1] * (2 * s.ql + 1)
                        \/ e.slo # <<>> /\ s.sf[i + 1] <= e.slo[1]
                        \/ e.shi # <<>> /\ s.sf[i + 1] > e.shi[1]
                        \/ e.plo # <<>> /\ Diffracts(s, i) /\ e.pw[i + 1] < e.plo[1]
                        \/ e.phi # <<>> /\ Diffracts(s, i) /\ e.pw[i + 1] > e.phi[1]}]

Shown(s) == SelectSeq(s.order, LAMBDA i : ~Hidden(s, i))
NI == -2147483647
Map(f(_), x) == [k \in 1..Len(x) |-> f(x[k])]
\* every view of the plane data, in terms of reflection numbers
Views(s) ==
    LET sh == Shown(s) IN
    [ids |-> sh,
     hkls |-> Map(LAMBDA i : s.H[i + 1], sh),
     tth |-> Map(LAMBDA i : IF Diffracts(s, i) THEN QI(s, i) ELSE NI, sh),
     alltth |-> Map(LAMBDA i : IF Diffracts(s, i) THEN QI(s, i) ELSE NI, s.order),
     d |-> Map(LAMBDA i : QI(s, i), sh),
     mult |-> Map(LAMBDA i : Cardinality(Orbit(s.grp, s.H[i + 1])), sh),
     allmult |-> Map(LAMBDA i : Cardinality(Orbit(s.grp, s.H[i + 1])), s.order),
     sf |-> IF s.sf = <<>> THEN <<>> ELSE Map(LAMBDA i : s.sf[i + 1], sh),
     hi |-> IF s.sf = <<>> THEN <<>> ELSE Map(LAMBDA i : IF Diffracts(s, i) THEN s.sf[i + 1] ELSE NI, sh),
     excl |-> Map(LAMBDA i : Hidden(s, i), s.order),
     n |-> Len(sh), nref |-> N(s), nr |-> Len(sh)]
Fams(s, e) == LET sh == Shown(s) IN [k \in 1..Len(sh) |-> Orbit(s.grp, s.H[sh[k] + 1])]
SetOf(x) == {x[k] : k \in 1..Len(x)}
Distinct(x) == Cardinality(SetOf(x)) = Len(x)

XBegin(h) == [h EXCEPT !.ex = SetOf(h.ex)]
Fields == {"ids", "hkls", "tth", "alltth", "d", "mult", "allmult", "sf", "hi", "pi", "excl", "n", "nref", "nr"}
XJudge(st, e) ==
    LET s1 == Do(st, e)
        o == e.obs
    IN IF (e.op = "new" /\ o.k # "ok") \/ o.k = "broken" THEN [st |-> s1, bad |-> {"broken"}, want |-> "a result"]
       ELSE IF o.k = "err"
       THEN [st |-> st, bad |-> {"refused"}, want |-> "accepted"]
       ELSE
       LET ok == LegalOrder(o.order, s1)
           s2 == [s1 EXCEPT !.order = IF ok THEN o.order ELSE IF IsPerm(o.order, s1) THEN o.order ELSE Canonical(s1)]
           w == Views(s2)
           sh == w.ids
           fam == Fams(s2, e)
           bad == (IF ok THEN {} ELSE {"order"})
             \cup {f \in Fields : IF f = "pi" THEN o.pi # w.hi ELSE o[f] # w[f]}
             \* families complete, without repetition, in the same order; the numbered form agrees
             \cup (IF Len(o.sym) = Len(sh) /\ \A k \in 1..Len(sh) : SetOf(o.sym[k]) = fam[k] /\ Distinct(o.sym[k]) THEN {} ELSE {"sym"})
             \cup (IF Len(o.symid) = Len(sh) /\ \A k \in 1..Len(sh) : o.symid[k] = sh[k] THEN {} ELSE {"symid"})
             \* a chosen subset of the shown list
             \cup (IF (\A j \in 1..Len(o.pick) : o.pick[j] < Len(sh)) /\ o.sub = [j \in 1..Len(o.pick) |-> sh[o.pick[j] + 1]] THEN {} ELSE {"subset"})
             \* identifiers of every family member
             \cup (IF o.hid = [k \in 1..Len(sh) |-> <<k - 1>>] THEN {} ELSE {"hklid"})
             \cup (IF o.mid = [k \in 1..Len(sh) |-> <<sh[k]>>] THEN {} ELSE {"masterid"})
             \* lookup by identifier: hidden ones refused unless all are asked for
             \cup (IF o.byid = [i \in 1..N(s2) |-> IF Hidden(s2, i - 1) THEN -1 ELSE i - 1] THEN {} ELSE {"byid"})
             \cup (IF o.allbyid = [i \in 1..N(s2) |-> i - 1] THEN {} ELSE {"allbyid"})
             \cup (IF o.badid THEN {} ELSE {"badid"})
       IN [st |-> s2, bad |-> bad, want |-> [v |-> w, order |-> Canonical(s2)]]

----------------------------------------------------------------------------
\* Exploration: three reflections whose order by angle the lattices permute
H0 == <<<<1, 1, 0>>, <<2, 0, 0>>, <<1, 1, 1>>, <<3, 0, 0>>>>
Mets == {<<4, 5, 6, 0, 0, 0>>, <<2, 9, 1, 0, 0, 0>>, <<1, 1, 30, 0, 0, 0>>}
S0(b) == LET s == [H |-> H0, grp |-> "d2h", sorted |-> b, met |-> <<4, 5, 6, 0, 0, 0>>, ql |-> 60, mx |-> <<>>,
                   ex |-> {}, order |-> <<>>, sf |-> <<5, 3, 8, 1>>]
         IN [s EXCEPT !.order = Canonical(s)]
MCStart == {S0(TRUE), S0(FALSE)}
NoLim == [op |-> "exclude", qhi |-> <<>>, qlo |-> <<>>, tlo |-> <<>>, thi |-> <<>>, slo |-> <<>>, shi |-> <<>>, plo |-> <<>>, phi |-> <<>>, pw |-> <<>>]
MCOps(s) ==
    {[op |-> "none"], [op |-> "mask", m |-> <<TRUE, FALSE, FALSE, TRUE>>], [op |-> "mask", m |-> <<FALSE, TRUE, FALSE, FALSE>>],
     [op |-> "idx", i |-> <<1>>], [op |-> "idx", i |-> <<3, 0>>], [op |-> "range", r |-> <<<<1, 3>>>>]}
    \cup {[op |-> "lparms", met |-> m] : m \in Mets}
    \cup {[op |-> "wave", ql |-> q] : q \in {14, 60}}
    \cup {[op |-> "max", mx |-> x] : x \in {<<>>, <<21, 64>>}}
    \cup {[op |-> "sf", v |-> <<7, 2, 9, 4>>], [op |-> "clone"]}
    \cup {[NoLim EXCEPT !.qhi = <<20>>], [NoLim EXCEPT !.slo = <<3>>], [NoLim EXCEPT !.thi = <<15, 64>>, !.qlo = <<9>>]}
MCApply(s, e) == LET t == Do(s, e) IN [t EXCEPT !.order = Canonical(t)]
MCSafe(s) == /\ LegalOrder(s.order, s)
             /\ \A i \in Ids(s) : Invariant(s.grp, s.met, s.H[i + 1])
             /\ Views(s).n + Cardinality({i \in Ids(s) : Hidden(s, i)}) = N(s)
MCSafeStep(s, e) ==
    LET t == MCApply(s, e) IN
    \* geometry changes keep the chosen set; what was just chosen reads back in the order it was given
    /\ e.op \in {"lparms", "wave", "max", "sf", "clone"} => t.ex = s.ex
    /\ e.op = "mask" => t.order = s.order /\ \A k \in 1..N(s) : (t.order[k] \in t.ex) = e.m[k]
    /\ e.op = "idx" => {k \in Ids(s) : At(t.order, k) \in t.ex} = SetOf(e.i)
    /\ e.op # "sf" => t.sf = s.sf
=============================================================================
