-------------------------------- MODULE Matl --------------------------------
(***************************************************************************)
(* C07.  A material as a function of its current settings.                   *)
(* State: settings sg, lp (six integers: milli-angstrom and milli-degrees),  *)
(* kev, dmin, setting, atoms, and the state that is allowed to be            *)
(* remembered: the reflection list H (as a set), the excluded reflections ex, *)
(* the reflections a file asked for (file), the two-theta limit mx and the   *)
(* width w, reference volume v0 and the equation-of-state numbers.           *)
(* The observation carries the material's tables and those of a material     *)
(* built directly from the same settings; numbers are integers scaled alike. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NI == -2147483647
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == IF x = NI \/ y = NI THEN x = y ELSE Abs(x - y) <= t
SetOf(x) == {x[k] : k \in 1..Len(x)}

System(sg) == IF sg <= 2 THEN "triclinic" ELSE IF sg <= 15 THEN "monoclinic"
              ELSE IF sg <= 74 THEN "orthorhombic" ELSE IF sg <= 142 THEN "tetragonal"
              ELSE IF sg <= 194 THEN "hexagonal" ELSE "cubic"
\* free parameters (positions) of each crystal system, and the full cell they give
Free(sys) == CASE sys = "triclinic" -> <<1, 2, 3, 4, 5, 6>> [] sys = "monoclinic" -> <<1, 2, 3, 5>>
               [] sys = "orthorhombic" -> <<1, 2, 3>> [] sys = "cubic" -> <<1>> [] OTHER -> <<1, 3>>
Full(sys, p) ==
    CASE sys = "triclinic" -> p
      [] sys = "monoclinic" -> <<p[1], p[2], p[3], 90000, p[4], 90000>>
      [] sys = "orthorhombic" -> <<p[1], p[2], p[3], 90000, 90000, 90000>>
      [] sys = "tetragonal" -> <<p[1], p[1], p[2], 90000, 90000, 90000>>
      [] sys = "hexagonal" -> <<p[1], p[1], p[2], 90000, 90000, 120000>>
      [] sys = "cubic" -> <<p[1], p[1], p[1], 90000, 90000, 90000>>
Reduce(sys, lp) == [k \in 1..Len(Free(sys)) |-> lp[Free(sys)[k]]]
Constrain(sg, lp) == Full(System(sg), Reduce(System(sg), lp))

Do(s, e) ==
    CASE e.op = "new" -> s
      [] e.op \in {"lp6", "lpnm"} -> [s EXCEPT !.lp = Constrain(s.sg, e.lp)]
      [] e.op = "lpred" -> [s EXCEPT !.lp = Full(System(s.sg), e.p)]
      [] e.op = "sg" -> [s EXCEPT !.sg = e.sg, !.lp = Constrain(e.sg, s.lp)]
      [] e.op = "set" -> [s EXCEPT !.setting = e.v]
      [] e.op = "kev" -> [s EXCEPT !.kev = e.v]
      [] e.op = "dmin" -> [s EXCEPT !.dmin = e.v]
      [] e.op = "atoms" -> [s EXCEPT !.atoms = e.v]
      [] e.op = "max" -> [s EXCEPT !.mx = e.v]
      [] e.op = "width" -> [s EXCEPT !.w = e.v]
      [] e.op = "eos" -> [s EXCEPT !.eos = e.v]
      [] e.op = "exset" -> [s EXCEPT !.ex = SetOf(e.v)]
      [] e.op \in {"first", "default", "v0", "copy"} -> s
      [] e.op = "save" -> [s EXCEPT !.mx = -1]
      [] e.op = "cif" -> [s EXCEPT !.mx = -1, !.file = <<>>, !.setting = e.setting, !.w = e.w, !.eos = <<100, 0, 0, 0, 0, 0, 298, 0>>,
                                   !.kev = e.kev, !.dmin = e.dmin]

\* reflections beyond the two-theta limit (those near it are left open)
Hidden(s, row) == IF s.mx < 0 THEN {FALSE}
                  ELSE IF row.tth = NI THEN {TRUE}
                  ELSE IF row.tth > s.mx + 5 THEN {TRUE} ELSE IF row.tth < s.mx - 5 THEN {FALSE} ELSE {TRUE, FALSE}
\* the default choice: what the file asked for, otherwise the first five
Default(s, rows) == IF s.file # <<>>
    THEN {rows[k].h : k \in 1..Len(rows)} \ SetOf(s.file[1])
    ELSE {rows[k].h : k \in 6..Len(rows)}
\* (a material that shows nothing is saved without a choice)
\* exclusions after the reflection list became rows
Kept(s, rows) == {rows[k].h : k \in {j \in 1..Len(rows) : rows[j].h \in s.ex \/ rows[j].h \notin s.H}}
NewEx(s, e, rows) ==
    LET h == {rows[k].h : k \in 1..Len(rows)} IN
    IF e.op = "first" THEN {rows[k].h : k \in (e.n + 1)..Len(rows)}
    ELSE IF e.op \in {"default", "cif", "new"} THEN Default(s, rows)
    ELSE IF e.op = "save" THEN (IF e.shown = <<>> THEN Default(s, rows) ELSE h \ SetOf(e.shown))
    ELSE IF h = s.H THEN s.ex
    ELSE IF Kept(s, rows) = h THEN Default(s, rows) ELSE Kept(s, rows)

Same(a, b, t) == Near(a, b, t)
RowOk(a, b) == /\ a.m = b.m /\ Near(a.tth, b.tth, 2) /\ Near(a.sf, b.sf, 3 + Abs(b.sf) \div 200000) /\ Near(a.d, b.d, 2)
Find(rows, h) == CHOOSE k \in 1..Len(rows) : rows[k].h = h
XBegin(h) == [h EXCEPT !.ex = SetOf(h.ex), !.H = SetOf(h.H)]
XJudge(st, e) ==
    LET o == e.obs s0 == Do(st, e) IN
    IF o.k # "ok" THEN [st |-> s0, bad |-> {"refused"}, want |-> "a material"]
    ELSE LET s1 == IF e.op = "save" THEN [s0 EXCEPT !.file = IF e.shown = <<>> THEN <<>> ELSE <<e.shown>>] ELSE s0
             rows == o.rows
             hs == {rows[k].h : k \in 1..Len(rows)}
             ex == NewEx(s1, e, rows)
             s2 == [s1 EXCEPT !.H = hs, !.ex = ex, !.v0 = IF e.op \in {"new", "v0", "cif"} THEN o.vol ELSE s1.v0]
             bad == (IF \A k \in 1..6 : Near(o.lp[k], s2.lp[k], 1) THEN {} ELSE {"lattice"})
               \cup (IF \A k \in 1..6 : Near(o.ulp[k], s2.lp[k], 1) THEN {} ELSE {"cell"})
               \cup (IF Len(o.plp) = Len(Reduce(System(s2.sg), s2.lp)) /\ \A k \in 1..Len(o.plp) : Near(o.plp[k], Reduce(System(s2.sg), s2.lp)[k], 1)
                     THEN {} ELSE {"plane-data-lattice"})
               \cup (IF o.sg = s2.sg /\ o.setting = s2.setting THEN {} ELSE {"group"})
               \cup (IF Near(o.kev, s2.kev, 1) /\ Near(o.pkev, s2.kev, 2) /\ Near(o.dmin, s2.dmin, 1) THEN {} ELSE {"energy-or-spacing"})
               \cup (IF o.vol = o.rvol \/ Near(o.vol, o.rvol, 2) THEN {} ELSE {"volume"})
               \cup (IF Near(o.den, o.rden, 2) THEN {} ELSE {"density"})
               \cup (IF Near(o.abs, o.rabs, 2) THEN {} ELSE {"absorption"})
               \cup (IF o.laue = o.rlaue /\ o.formula = o.rformula /\ Near(o.vpa, o.rvpa, 1) THEN {} ELSE {"derived"})
               \cup (IF Len(rows) = Len(o.ref) /\ hs = {o.ref[k].h : k \in 1..Len(o.ref)}
                        /\ Cardinality(hs) = Len(rows) THEN {} ELSE {"reflection-list"})
               \cup (IF hs # {o.ref[k].h : k \in 1..Len(o.ref)} \/ \A k \in 1..Len(rows) : RowOk(rows[k], o.ref[Find(o.ref, rows[k].h)])
                     THEN {} ELSE {"reflection-values"})
               \cup (IF \A k \in 1..(Len(rows) - 1) : rows[k].tth = NI \/ rows[k + 1].tth = NI \/ rows[k].tth <= rows[k + 1].tth + 2 THEN {} ELSE {"order"})
               \cup (IF \A k \in 1..Len(rows) : rows[k].shown \in {~(rows[k].h \in ex) /\ ~b : b \in Hidden(s2, rows[k])}
                                                   /\ rows[k].ex = (rows[k].h \in ex)
                     THEN {} ELSE {"exclusions"})
               \cup (IF o.w = s2.w THEN {} ELSE {"width"})
               \cup (IF o.mx = s2.mx THEN {} ELSE {"limit"})
               \cup (IF o.eos = s2.eos THEN {} ELSE {"state-equation"})
               \cup (IF Near(o.v0, s2.v0, 2) THEN {} ELSE {"reference-volume"})
               \cup (IF o.atoms = o.ratoms THEN {} ELSE {"atoms"})
               \cup (IF o.pure THEN {} ELSE {"source-changed"})
         IN [st |-> s2, bad |-> bad, want |-> [lp |-> s2.lp, excluded |-> ex, v0 |-> s2.v0]]

----------------------------------------------------------------------------
\* Exploration: settings histories (the reflection list is abstract here: what
\* each list keeps of three named reflections)
Lps == {<<4000, 5000, 6000, 80000, 85000, 100000>>}
MCStart == {[sg |-> g, lp |-> Constrain(g, l), kev |-> 80000, dmin |-> 1300, setting |-> 0, atoms |-> 0,
             H |-> {}, ex |-> {}, file |-> <<>>, mx |-> -1, w |-> <<"w", 250>>, v0 |-> 0, eos |-> <<100, 0, 0, 0, 0, 0, 298, 0>>] :
               g \in {2, 62, 166, 225}, l \in Lps}
MCOps(s) == {[op |-> "sg", sg |-> g] : g \in {2, 14, 62, 123, 166, 194, 227}}
    \cup {[op |-> "lp6", lp |-> <<4100, 5300, 6500, 82000, 91000, 97000>>],
          [op |-> "lpred", p |-> Reduce(System(s.sg), <<3700, 4700, 5100, 84000, 95000, 92000>>)],
          [op |-> "kev", v |-> 60000], [op |-> "dmin", v |-> 1500], [op |-> "atoms", v |-> 2],
          [op |-> "set", v |-> 1 - s.setting],
          [op |-> "max", v |-> 12000], [op |-> "save"], [op |-> "copy"], [op |-> "first", n |-> 2]}
MCApply(s, e) == Do(s, e)
MCSafe(s) == /\ Constrain(s.sg, s.lp) = s.lp
             /\ Full(System(s.sg), Reduce(System(s.sg), s.lp)) = s.lp
\* only the named setting changes (the lattice follows the space group)
MCSafeStep(s, e) == LET t == Do(s, e) IN
    /\ (e.op # "sg") => t.sg = s.sg
    /\ (e.op \notin {"sg", "lp6", "lpred"}) => t.lp = s.lp
    /\ (e.op # "kev") => t.kev = s.kev
    /\ (e.op \in {"lp6", "sg"}) => MCSafe(t)
    \* idempotence of setting the same thing twice
    /\ (e.op # "set" /\ (e.op # "lpred")) => Do(t, e) = t
=============================================================================
