-------------------------------- MODULE Instr -------------------------------
(***************************************************************************)
(* C11.  An instrument, its panels and its descriptions.                     *)
(* beams: sequence of [n, e, az, po, d, corr]  (d = 0: infinitely far)        *)
(* act: the active beam's n;  eta: axis vector;  chi, tv: sample frame         *)
(* dets: sequence of [n, g, type, rad, tilt, t, rows, cols, px, sat, buf, roi, *)
(*        dist];  sat = -1: none;  buf: <<>>, <<1, x, y>> (mm), <<2, m>> (mask *)
(*        number m) or <<3>> (a named buffer)                                  *)
(* pan: what each panel was told: [az, po, d, eta]                             *)
(* ctx: the open "with switch_xray_source" blocks: beam to return to (-1: none) *)
(* Names are numbers in the order of the names; 0 is the default beam name.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Eta0 == <<1, 0, 0>>
BeamAt(s, n) == CHOOSE k \in 1..Len(s.beams) : s.beams[k].n = n
HasBeam(s, n) == \E k \in 1..Len(s.beams) : s.beams[k].n = n
Act(s) == s.beams[BeamAt(s, s.act)]
\* the panels are told about the active beam
Tell(s) == LET b == Act(s) IN [s EXCEPT !.pan = [k \in 1..Len(s.dets) |-> [az |-> b.az, po |-> b.po, d |-> b.d, eta |-> s.eta]]]
\* spherical angles in degrees -> the same direction, azimuth in (-180, 180], polar in [0, 180], azimuth 0 on the poles
Canon(az, po) == LET p == po % 360
                     q == IF p > 180 THEN 360 - p ELSE p
                     a == (IF p > 180 THEN az + 180 ELSE az) % 360
                     w == IF a > 180 THEN a - 360 ELSE a
                 IN [az |-> IF q = 0 \/ q = 180 THEN 0 ELSE w, po |-> q]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x.n <= y.n IN <<m>> \o Sorted(S \ {m})
Rng(q) == {q[k] : k \in 1..Len(q)}
ByName(q) == Sorted(Rng(q))

XBegin(h) == LET cb(b) == LET c == Canon(b.az, b.po) IN [b EXCEPT !.az = c.az, !.po = c.po]
                 s0 == [id |-> h.id, beams |-> [k \in 1..Len(h.beams) |-> cb(h.beams[k])], act |-> IF h.act = -1 THEN h.beams[1].n ELSE h.act, eta |-> h.eta, chi |-> h.chi, tv |-> h.tv,
                        dets |-> h.dets, pan |-> <<>>, ctx |-> <<>>]
             IN Tell(s0)

\* --- descriptions ---------------------------------------------------------
YamlBuf(b) == IF b # <<>> /\ b[1] = 2 THEN <<1, 0, 0>> ELSE b
DescDet(d, style) == IF style = "hdf5" THEN d ELSE [d EXCEPT !.buf = YamlBuf(@)]
\* the only beam of a description has no name
Desc(s, style) == [id |-> s.id, chi |-> s.chi, tv |-> s.tv, dets |-> [k \in 1..Len(s.dets) |-> DescDet(ByName(s.dets)[k], style)],
                   beams |-> IF Len(s.beams) = 1 THEN <<[s.beams[1] EXCEPT !.n = 0]>> ELSE ByName(s.beams)]
\* files list everything by name; a description held in memory keeps its order
Rebuilt(s, e) ==
    LET st == IF e.style = "h5" THEN "hdf5" ELSE e.style
        dd == [k \in 1..Len(s.dets) |-> LET d == DescDet(s.dets[k], st) IN
                  IF e.file /\ st = "hdf5" /\ d.sat = -1 THEN [d EXCEPT !.sat = 65536] ELSE d]
        ds == IF e.file THEN ByName(dd) ELSE dd
        bs == IF Len(s.beams) = 1 THEN <<[s.beams[1] EXCEPT !.n = IF e.act = -1 THEN 0 ELSE e.act]>> ELSE IF e.file THEN ByName(s.beams) ELSE s.beams
    IN Tell([s EXCEPT !.dets = ds, !.beams = bs, !.act = IF e.act = -1 THEN bs[1].n ELSE e.act, !.eta = e.eta, !.ctx = <<>>])
CanBuild(s, e) == e.act = -1 \/ Len(s.beams) = 1 \/ HasBeam(s, e.act)

\* --- operations -----------------------------------------------------------
SetBeam(s, n, f, v) == LET k == BeamAt(s, n) IN
    CASE f = "e" -> [s EXCEPT !.beams[k].e = v[1]]
      [] f = "dir" -> LET c == Canon(v[1], v[2]) IN [s EXCEPT !.beams[k].az = c.az, !.beams[k].po = c.po]
      [] f = "d" -> [s EXCEPT !.beams[k].d = v[1]]
      [] f = "corr" -> [s EXCEPT !.beams[k].corr = v]
SetDet(s, k, f, v) ==
    CASE f = "t" -> [s EXCEPT !.dets[k].t = v] [] f = "tilt" -> [s EXCEPT !.dets[k].tilt = v]
      [] f = "sat" -> [s EXCEPT !.dets[k].sat = v[1]] [] f = "buf" -> [s EXCEPT !.dets[k].buf = v]
      [] f = "roi" -> [s EXCEPT !.dets[k].roi = v] [] f = "dist" -> [s EXCEPT !.dets[k].dist = v]
      [] f = "g" -> [s EXCEPT !.dets[k].g = v[1]] [] f = "px" -> [s EXCEPT !.dets[k].px = v]
Fails(s, e) == CASE e.op = "active" -> ~HasBeam(s, e.n)
                 [] e.op = "enter" -> e.n # -1 /\ ~HasBeam(s, e.n)
                 [] e.op \in {"badDir", "badEta", "badCorr", "badTv", "badDist", "badStyle"} -> TRUE
                 [] e.op = "rebuild" -> ~CanBuild(s, e)
                 [] OTHER -> FALSE
Step(s, e) ==
    IF Fails(s, e) THEN s
    ELSE CASE e.op = "beam" -> Tell(SetBeam(s, s.act, e.f, e.v))          \* the active beam's setters
           [] e.op = "mod" -> Tell(SetBeam(s, e.n, e.f, e.v))               \* the dictionary of beams, then beam_dict_modified
           [] e.op = "active" -> Tell([s EXCEPT !.act = e.n])
           [] e.op = "enter" -> IF e.n = -1 THEN [s EXCEPT !.ctx = Append(@, -1)] ELSE Tell([s EXCEPT !.ctx = Append(@, s.act), !.act = e.n])
           [] e.op = "leave" -> IF s.ctx = <<>> THEN s ELSE LET n == s.ctx[Len(s.ctx)] r == [s EXCEPT !.ctx = SubSeq(@, 1, Len(@) - 1)] IN
                IF n = -1 THEN r ELSE Tell([r EXCEPT !.act = n])
           [] e.op = "eta" -> Tell([s EXCEPT !.eta = e.v])
           [] e.op = "chi" -> [s EXCEPT !.chi = e.v[1]]
           [] e.op = "tv" -> [s EXCEPT !.tv = e.v]
           [] e.op = "det" -> SetDet(s, e.k, e.f, e.v)
           [] e.op = "slope" -> LET k == BeamAt(s, e.n) IN IF s.beams[k].corr = <<>> THEN s ELSE [s EXCEPT !.beams[k].corr[2] = e.v[1]]
           [] e.op = "rebuild" -> Rebuilt(s, e)
           [] OTHER -> s

Groups(s) == {s.dets[k].g : k \in 1..Len(s.dets)} \ {0}
RECURSIVE SumT(_, _)
SumT(ds, k) == IF k = 0 THEN <<0, 0, 0>> ELSE LET r == SumT(ds, k - 1) IN [i \in 1..3 |-> r[i] + ds[k].t[i]]
\* what can be seen of an instrument; sums: of the translations of all detectors and of each group
Seen(s) == LET ds == ByName(s.dets)
               mem(g) == SelectSeq(ds, LAMBDA d : d.g = g)
               gs == SelectSeq(<<1, 2, 3>>, LAMBDA g : g \in Groups(s)) IN
    [id |-> s.id, beams |-> ByName(s.beams), act |-> s.act, eta |-> s.eta, chi |-> s.chi, tv |-> s.tv, dets |-> ds,
     pan |-> [k \in 1..Len(ds) |-> [az |-> Act(s).az, po |-> Act(s).po, d |-> Act(s).d, eta |-> s.eta]],
     now |-> [e |-> Act(s).e, az |-> Act(s).az, po |-> Act(s).po, d |-> Act(s).d, corr |-> Act(s).corr, multi |-> Len(s.beams) > 1],
     groups |-> [k \in 1..Len(gs) |-> [g |-> gs[k], n |-> [i \in 1..Len(mem(gs[k])) |-> mem(gs[k])[i].n], sum |-> SumT(mem(gs[k]), Len(mem(gs[k])))]],
     sum |-> SumT(ds, Len(ds)), kept |-> TRUE]

XJudge(s0, e) ==
    LET s == Step(s0, e) o == e.obs w == Seen(s) f == Fails(s0, e)
        diff == IF o.k = "none" THEN {"no instrument"} ELSE {x \in DOMAIN w : o.v[x] # w[x]}
    IN IF e.op = "write" THEN LET wd == Desc(s, e.style) IN
            [st |-> s, bad |-> diff \cup (IF o.k = "err" THEN {"error"} ELSE {"written " \o x : x \in {y \in DOMAIN wd : o.d[y] # wd[y]}}), want |-> [v |-> w, d |-> wd]]
       ELSE [st |-> s, bad |-> diff \cup (IF o.k = "err" /\ ~f THEN {"error"} ELSE {}) \cup (IF o.k # "err" /\ f THEN {"accepted"} ELSE {}), want |-> w]

----------------------------------------------------------------------------
B0(n) == [n |-> n, e |-> 65000, az |-> 90, po |-> 90, d |-> 0, corr |-> <<>>]
D0(n) == [n |-> n, g |-> 0, type |-> 0, rad |-> 0, tilt |-> <<1, 0, 2>>, t |-> <<1, 2, -9>>, rows |-> 3, cols |-> 4, px |-> <<2, 1>>, sat |-> 1000, buf |-> <<>>, roi |-> <<>>, dist |-> <<>>]
MCStart == {XBegin([id |-> 1, beams |-> b, act |-> -1, eta |-> Eta0, chi |-> 3, tv |-> <<0, 1, 2>>, dets |-> d]) :
    b \in {<<B0(0)>>, <<[B0(2) EXCEPT !.corr = <<3, 4, 0>>, !.d = 7]>>, <<B0(2), [B0(1) EXCEPT !.az = 30, !.po = 100, !.e = 70000, !.d = 5]>>},
    d \in {<<D0(1)>>, <<[D0(2) EXCEPT !.g = 1, !.buf = <<2, 1>>, !.sat = -1], [D0(1) EXCEPT !.type = 1, !.rad = 40, !.g = 1, !.buf = <<1, 2, 3>>, !.dist = <<1, 2, 3, 4, 5, 6>>, !.roi = <<5, 6>>]>>}}
MCOps(s) ==
    {[op |-> "beam", f |-> "e", v |-> <<71000>>], [op |-> "beam", f |-> "dir", v |-> <<60, 120>>], [op |-> "beam", f |-> "dir", v |-> <<-90, 90>>], [op |-> "beam", f |-> "d", v |-> <<12>>], [op |-> "beam", f |-> "corr", v |-> <<1, 2, 1>>],
     [op |-> "eta", v |-> <<0, 1, 0>>], [op |-> "badDir"], [op |-> "badEta"], [op |-> "badCorr"], [op |-> "chi", v |-> <<9>>], [op |-> "tv", v |-> <<5, 6, 7>>]}
    \cup {[op |-> "active", n |-> n] : n \in {1, 2}}
    \cup {[op |-> "enter", n |-> n] : n \in {-1, 1, 2}}
    \cup (IF s.ctx = <<>> THEN {} ELSE {[op |-> "leave", exc |-> x] : x \in BOOLEAN})
    \cup {[op |-> "mod", n |-> s.beams[Len(s.beams)].n, f |-> "dir", v |-> <<45, 80>>], [op |-> "slope", n |-> s.beams[1].n, v |-> <<8>>]}
    \cup {[op |-> "write", style |-> y] : y \in {"yaml", "hdf5"}}
    \cup {[op |-> "rebuild", style |-> y, file |-> x, act |-> a, eta |-> Eta0] : y \in {"yaml", "hdf5"}, x \in BOOLEAN, a \in {-1, 2}}
MCApply(s, e) == Step(s, e)
MCSafe(s) == \A k \in 1..Len(s.dets) : s.pan[k] = [az |-> Act(s).az, po |-> Act(s).po, d |-> Act(s).d, eta |-> s.eta]
MCSafeStep(s, e) == /\ (e.op = "rebuild" /\ CanBuild(s, e)) => LET r == Rebuilt(s, e) IN Rebuilt(r, [e EXCEPT !.act = r.act]) = r     \* a second time changes nothing
                    /\ (e.op = "leave" /\ s.ctx # <<>> /\ s.ctx[Len(s.ctx)] # -1) => Step(s, e).act = s.ctx[Len(s.ctx)]
                    /\ Fails(s, e) => Step(s, e) = s
=============================================================================
