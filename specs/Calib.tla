-------------------------------- MODULE Calib -------------------------------
(***************************************************************************)
(* C10.  Calibration parameters of an instrument.                            *)
(* Rotations are octahedral matrices (rows of integers); lengths are integers *)
(* in a unit fine enough for the mean centres of up to three detectors.       *)
(* State: dets: sequence of [p, group, R, t, dist, rad]  (p: the prefix)       *)
(*        beams: sequence of [p, e, az, po, corr]; chi; tv                     *)
(*        con: [type, centre, par: prefix -> [R, t]]                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Z3 == <<0, 0, 0>>
Mul(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
Tr(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
Vec(A, v) == [i \in 1..3 |-> A[i][1] * v[1] + A[i][2] * v[2] + A[i][3] * v[3]]
Plus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Minus(a, b) == [i \in 1..3 |-> a[i] - b[i]]
RECURSIVE SumOf(_, _)
SumOf(ds, k) == IF k = 0 THEN Z3 ELSE Plus(SumOf(ds, k - 1), ds[k].t)
Mean(ds) == LET s == SumOf(ds, Len(ds)) IN [i \in 1..3 |-> IF s[i] % Len(ds) = 0 THEN s[i] \div Len(ds) ELSE Assert(FALSE, "unit too coarse")]

RECURSIVE Uniq(_, _)
Uniq(q, k) == IF k = 0 THEN <<>> ELSE LET r == Uniq(q, k - 1) IN IF q[k] = "" \/ \E i \in 1..Len(r) : r[i] = q[k] THEN r ELSE Append(r, q[k])
Groups(s) == Uniq([k \in 1..Len(s.dets) |-> s.dets[k].group], Len(s.dets))
Prefixes(s) == CASE s.con.type = "none" -> [k \in 1..Len(s.dets) |-> s.dets[k].p]
                 [] s.con.type = "group" -> Groups(s)
                 [] OTHER -> <<"system">>
Rng(q) == {q[k] : k \in 1..Len(q)}
Members(s, p) == IF s.con.type = "group" THEN {k \in 1..Len(s.dets) : s.dets[k].group = p} ELSE 1..Len(s.dets)
Fresh(type, s) == LET s1 == [s EXCEPT !.con = [type |-> type, centre |-> "mean", par |-> <<>>]] IN
    [type |-> type, centre |-> IF type = "group" THEN "group" ELSE "mean", par |-> [p \in IF type = "none" THEN {} ELSE Rng(Prefixes(s1)) |-> [R |-> Id3, t |-> Z3]]]

\* --- names and values ----------------------------------------------------
BeamP(s, k) == IF Len(s.beams) > 1 THEN s.beams[k].p \o "_" ELSE ""
Tv == <<"_tvec_x", "_tvec_y", "_tvec_z">>
BeamVals(s, k) == LET b == s.beams[k] p == BeamP(s, k) IN
    [n \in {p \o "beam_polar", p \o "beam_azimuth", p \o "beam_energy"} \cup (IF b.corr = <<>> THEN {} ELSE {p \o "beam_energy_correction_intercept", p \o "beam_energy_correction_slope"}) |->
        CASE n = p \o "beam_polar" -> b.po [] n = p \o "beam_azimuth" -> b.az [] n = p \o "beam_energy" -> b.e
          [] n = p \o "beam_energy_correction_intercept" -> b.corr[1] [] OTHER -> b.corr[2]]
InstrVals(s) == ("instr_chi" :> s.chi) @@ ("instr_tvec_x" :> s.tv[1]) @@ ("instr_tvec_y" :> s.tv[2]) @@ ("instr_tvec_z" :> s.tv[3])
TvVals(p, t) == (p \o "_tvec_x" :> t[1]) @@ (p \o "_tvec_y" :> t[2]) @@ (p \o "_tvec_z" :> t[3])
DistVals(d) == LET nm(i) == d.p \o "_distortion_param_" \o ToString(i - 1) IN
    [n \in {nm(i) : i \in 1..Len(d.dist)} |-> d.dist[CHOOSE i \in 1..Len(d.dist) : nm(i) = n]]
DetVals(d) == TvVals(d.p, d.t) @@ DistVals(d) @@ (IF d.rad = 0 THEN <<>> ELSE (d.p \o "_radius") :> d.rad)
RECURSIVE Join(_, _)
Join(f, n) == IF n = 0 THEN <<>> ELSE f[n] @@ Join(f, n - 1)
\* the numbers (all parameters that are not angles of a rotation) and the rotations
Nums(s) == InstrVals(s) @@ Join([k \in 1..Len(s.beams) |-> BeamVals(s, k)], Len(s.beams))
           @@ (IF s.con.type = "none" THEN Join([k \in 1..Len(s.dets) |-> DetVals(s.dets[k])], Len(s.dets))
               ELSE LET q == Prefixes(s) IN Join([k \in 1..Len(q) |-> TvVals(q[k], s.con.par[q[k]].t)], Len(q)))
Rots(s) == IF s.con.type = "none" THEN [p \in Rng(Prefixes(s)) |-> LET k == CHOOSE k \in 1..Len(s.dets) : s.dets[k].p = p IN s.dets[k].R]
           ELSE [p \in Rng(Prefixes(s)) |-> s.con.par[p].R]

\* --- importing -----------------------------------------------------------
\* e.nums, e.rots: the parameters that were given another value; e.still: prefixes
\* whose constraint parameters were held, as [rot, tv]
Get(e, n, v) == IF n \in DOMAIN e.nums THEN e.nums[n] ELSE v
GetT(e, p, t) == <<Get(e, p \o "_tvec_x", t[1]), Get(e, p \o "_tvec_y", t[2]), Get(e, p \o "_tvec_z", t[3])>>
GetR(e, p, R) == IF p \in DOMAIN e.rots THEN e.rots[p] ELSE R
NewBeam(s, e, k) == LET b == s.beams[k] p == BeamP(s, k) IN
    [b EXCEPT !.po = Get(e, p \o "beam_polar", @), !.az = Get(e, p \o "beam_azimuth", @), !.e = Get(e, p \o "beam_energy", @),
              !.corr = IF @ = <<>> THEN @ ELSE <<Get(e, p \o "beam_energy_correction_intercept", @[1]), Get(e, p \o "beam_energy_correction_slope", @[2])>>]
NewDet(e, d) == [d EXCEPT !.R = GetR(e, d.p, @), !.t = GetT(e, d.p, @), !.rad = Get(e, d.p \o "_radius", @),
                          !.dist = [i \in 1..Len(d.dist) |-> Get(e, d.p \o "_distortion_param_" \o ToString(i - 1), d.dist[i])]]
Centre(s, p) == CASE s.con.centre = "origin" -> Z3
                  [] s.con.centre = "mean" -> Mean(s.dets)
                  [] OTHER -> Mean(SelectSeq(s.dets, LAMBDA d : d.group = p))
MovePart(s, e, p) ==
    LET old == s.con.par[p] mem == Members(s, p)
        turn == p \notin DOMAIN e.still \/ ~e.still[p].rot
        shift == p \notin DOMAIN e.still \/ ~e.still[p].tv
        nR == IF turn THEN GetR(e, p, old.R) ELSE old.R
        nt == IF shift THEN GetT(e, p, old.t) ELSE old.t
        D == Mul(nR, Tr(old.R)) c == IF D = Id3 THEN Z3 ELSE Centre(s, p)
        go(d) == [d EXCEPT !.R = Mul(D, @), !.t = Plus(Plus(Vec(D, Minus(@, c)), c), Minus(nt, old.t))] IN
    [s EXCEPT !.dets = [k \in 1..Len(s.dets) |-> IF k \in mem THEN go(s.dets[k]) ELSE s.dets[k]], !.con.par[p] = [R |-> nR, t |-> nt]]
RECURSIVE MoveAll(_, _, _, _)
MoveAll(s, e, q, k) == IF k > Len(q) THEN s ELSE MoveAll(MovePart(s, e, q[k]), e, q, k + 1)
Import(s, e) ==
    LET s1 == [s EXCEPT !.beams = [k \in 1..Len(s.beams) |-> NewBeam(s, e, k)], !.chi = Get(e, "instr_chi", @),
                        !.tv = <<Get(e, "instr_tvec_x", @[1]), Get(e, "instr_tvec_y", @[2]), Get(e, "instr_tvec_z", @[3])>>] IN
    IF s.con.type = "none" THEN [s1 EXCEPT !.dets = [k \in 1..Len(s.dets) |-> NewDet(e, s.dets[k])]]
    ELSE MoveAll(s1, e, Prefixes(s), 1)

\* --- lattice parameters of a material as parameters -----------------------
\* the free parameters of a crystal system and the cell they make
Free(sys) == CASE sys = "cubic" -> {"a"} [] sys = "hexagonal" -> {"a", "c"} [] sys = "trigonal" -> {"a", "c"} [] sys = "tetragonal" -> {"a", "c"}
               [] sys = "orthorhombic" -> {"a", "b", "c"} [] sys = "monoclinic" -> {"a", "b", "c", "beta"} [] OTHER -> {"a", "b", "c", "alpha", "beta", "gamma"}
LP == <<"a", "b", "c", "alpha", "beta", "gamma">>
FillCell(sys, f) == LET g(n, d) == IF n \in DOMAIN f THEN f[n] ELSE d IN
    CASE sys = "cubic" -> <<f["a"], f["a"], f["a"], 90, 90, 90>>
      [] sys \in {"hexagonal", "trigonal"} -> <<f["a"], f["a"], f["c"], 90, 90, 120>>
      [] sys = "tetragonal" -> <<f["a"], f["a"], f["c"], 90, 90, 90>>
      [] OTHER -> <<f["a"], f["b"], f["c"], g("alpha", 90), g("beta", 90), g("gamma", 90)>>
OfCell(sys, c) == [n \in Free(sys) |-> c[CHOOSE i \in 1..6 : LP[i] = n]]

XBegin(h) == LET s0 == [dets |-> h.dets, beams |-> h.beams, chi |-> h.chi, tv |-> h.tv, con |-> [type |-> "none", centre |-> "mean", par |-> <<>>]] IN [s0 EXCEPT !.con = Fresh("none", s0)]
Seen(s) == [dets |-> [k \in 1..Len(s.dets) |-> [R |-> s.dets[k].R, t |-> s.dets[k].t, dist |-> s.dets[k].dist, rad |-> s.dets[k].rad]],
            beams |-> [k \in 1..Len(s.beams) |-> [e |-> s.beams[k].e, az |-> s.beams[k].az, po |-> s.beams[k].po, corr |-> s.beams[k].corr]], chi |-> s.chi, tv |-> s.tv,
            par |-> LET q == IF s.con.type = "none" THEN <<>> ELSE Prefixes(s) IN [k \in 1..Len(q) |-> s.con.par[q[k]]]]
Step(s, e) == CASE e.op = "import" -> Import(s, e)
                [] e.op = "constrain" -> [s EXCEPT !.con = Fresh(e.type, s)]
                [] e.op = "centre" -> [s EXCEPT !.con.centre = e.centre]
                [] e.op = "reset" -> [s EXCEPT !.con = Fresh(s.con.type, s)]
                [] OTHER -> s
NumsOf(r) == r
XJudge(s0, e) ==
    LET s == Step(s0, e) o == e.obs V(ok, w) == [st |-> s, bad |-> IF ok THEN {} ELSE {e.op}, want |-> w] IN
    IF o.k = "err" THEN V(FALSE, "no error")
    ELSE CASE e.op \in {"import", "constrain", "centre", "reset", "look"} -> V(o.v = Seen(s), Seen(s))
           [] e.op = "export" -> LET w == Nums(s) IN V(DOMAIN o.nums = DOMAIN w /\ (\A n \in DOMAIN w : o.nums[n] = w[n]) /\ DOMAIN o.rots = DOMAIN Rots(s) /\ (\A p \in DOMAIN o.rots : o.rots[p] = Rots(s)[p]) /\ o.clean, <<w, Rots(s)>>)
           \* held: the y translations of all prefixes, nothing else
           [] e.op = "fixy" -> LET w == {Prefixes(s)[k] \o "_tvec_y" : k \in 1..Len(Prefixes(s))} IN V(Rng(o.v) = w, w)
           [] e.op = "mat" -> LET w == [names |-> Free(e.sys), cell |-> FillCell(e.sys, [n \in Free(e.sys) |-> IF n \in DOMAIN e.nums THEN e.nums[n] ELSE OfCell(e.sys, e.cell)[n]])] IN
                V(Rng(o.names) = w.names /\ Len(o.names) = Cardinality(w.names) /\ o.vals = OfCell(e.sys, e.cell) /\ o.cell = w.cell, w)
           \* new names: as asked for unless taken, never taken, all different, in order
           [] e.op = "names" -> V(/\ Len(o.v) = Len(e.new) /\ Cardinality(Rng(o.v)) = Len(o.v) /\ Rng(o.v) \cap Rng(e.cur) = {} /\ o.rest
                                  /\ \A k \in 1..Len(e.new) : (e.new[k] \notin Rng(e.cur) /\ (\A i \in 1..(k - 1) : o.v[i] /= e.new[k])) => o.v[k] = e.new[k], "distinct names")
           \* a grain's parameters, out and in again with changes: e.g: [R, t, v]
           [] e.op = "grain" -> LET w == [R |-> IF e.setR THEN e.nR ELSE e.R, t |-> [i \in 1..3 |-> IF i = e.i THEN e.v ELSE e.t[i]], st |-> [i \in 1..6 |-> IF i + 3 = e.i THEN e.v ELSE e.st[i]]] IN
                V(o.first = [R |-> e.R, t |-> e.t, st |-> e.st] /\ o.v = w, w)

----------------------------------------------------------------------------
Rz == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
Rx2 == <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>
Ryn == <<<<0, 0, -1>>, <<0, 1, 0>>, <<1, 0, 0>>>>
U == 7776
D0(p, g, R, t) == [p |-> p, group |-> g, R |-> R, t |-> [i \in 1..3 |-> U * t[i]], dist |-> <<>>, rad |-> 0]
B0(p) == [p |-> p, e |-> 65000, az |-> 90, po |-> 90, corr |-> <<>>]
MCStart == {XBegin([dets |-> d, beams |-> b, chi |-> 3, tv |-> <<0, U, 2 * U>>]) :
    d \in {<<D0("a", "", Id3, <<1, 2, -9>>)>>,
           <<[D0("a", "g", Rz, <<1, 0, -9>>) EXCEPT !.dist = <<10, 20, 30, 40, 50, 60>>], D0("ba", "h", Rx2, <<-5, 2, -9>>)>>,
           <<D0("x", "g", Id3, <<1, 0, 0>>), D0("y", "g", Ryn, <<0, 3, -4>>), [D0("z", "", Rz, <<2, 2, 2>>) EXCEPT !.rad = 5 * U]>>},
    b \in {<<B0("X1")>>, <<[B0("X_1") EXCEPT !.corr = <<3, 4>>], [B0("X_2") EXCEPT !.az = -30, !.po = 100, !.e = 70000]>>}}
Some(s) == LET q == Prefixes(s) IN IF Len(q) = 0 THEN "none" ELSE q[Len(q)]
Imp(n, r, st) == [op |-> "import", nums |-> n, rots |-> r, still |-> st]
MCOps(s) == {[op |-> "export"], [op |-> "fixy"], [op |-> "look"], Imp(<<>>, <<>>, <<>>)}
    \cup {[op |-> "constrain", type |-> t] : t \in {"none", "group", "system"}}
    \cup (IF s.con.type = "none" THEN {} ELSE {[op |-> "centre", centre |-> c] : c \in {"origin", "mean"}} \cup {[op |-> "reset"]})
    \cup (IF s.con.type = "group" THEN {[op |-> "centre", centre |-> "group"]} ELSE {})
    \cup (IF Len(Prefixes(s)) = 0 THEN {} ELSE
          {Imp((Some(s) \o "_tvec_x" :> 4 * U), r, <<>>) : r \in {<<>>, Some(s) :> Rz, Some(s) :> Ryn}} \cup {Imp(<<>>, Some(s) :> R, <<>>) : R \in {Rz, Rx2}}
          \cup (IF s.con.type = "none" THEN {} ELSE {Imp((Some(s) \o "_tvec_z" :> -U), Some(s) :> Rz, Some(s) :> [rot |-> a, tv |-> b]) : a \in BOOLEAN, b \in BOOLEAN}))
    \cup {Imp(((BeamP(s, Len(s.beams)) \o "beam_polar") :> 95) @@ ("instr_chi" :> 7), <<>>, <<>>), Imp("instr_tvec_y" :> -U, <<>>, <<>>)}
MCApply(s, e) == Step(s, e)
\* laws
Rigid(a, b, ks) == \A i \in ks, j \in ks : Mul(Tr(a.dets[i].R), a.dets[j].R) = Mul(Tr(b.dets[i].R), b.dets[j].R)
                     /\ Vec(Tr(a.dets[i].R), Minus(a.dets[j].t, a.dets[i].t)) = Vec(Tr(b.dets[i].R), Minus(b.dets[j].t, b.dets[i].t))
MCSafe(s) == \A k \in 1..Len(s.dets) : Mul(s.dets[k].R, Tr(s.dets[k].R)) = Id3
MCSafeStep(s, e) == (e.op = "import") =>
    LET n == Import(s, e) q == Prefixes(s) IN
    /\ (DOMAIN e.nums = {} /\ DOMAIN e.rots = {}) => n = s
    /\ s.con.type # "none" => \A k \in 1..Len(q) : Rigid(s, n, Members(s, q[k]))
    /\ s.con.type = "group" => \A k \in 1..Len(s.dets) : s.dets[k].group = "" => n.dets[k] = s.dets[k]
    \* what was imported is what is exported
    /\ (DOMAIN e.still = {}) => (\A m \in DOMAIN e.nums : Nums(n)[m] = e.nums[m]) /\ (\A p \in DOMAIN e.rots : Rots(n)[p] = e.rots[p])
=============================================================================
