--------------------------------- MODULE Rot ---------------------------------
(***************************************************************************)
(* C22.  Rotation representations, conversions and composition, and the     *)
(* Euler-angle object as a state machine.  All quantities are exact: the    *)
(* code's matrices are observed as integer multiples of 1/QNorm.            *)
(***************************************************************************)
EXTENDS Quat, FiniteSets

Mats(qs) == [i \in 1..Len(qs) |-> QMat(qs[i])]

XBegin(h) == h     \* [eu |-> Euler object state] or anything

\* Euler object: [known, h, ax, ext, units, q]
EulQ(s) == IF s.known THEN QEuler(s.ax, s.h, s.ext) ELSE s.q

Expect(s, e) ==
    CASE e.op = "conv" -> [k |-> "v", v |-> Mats(e.q)]
      [] e.op = "angle" -> [k |-> "v", v |-> [i \in 1..Len(e.q) |-> 2*e.q[i][1]*e.q[i][1] - QNorm(e.q[i])]]
      [] e.op = "prod" -> [k |-> "v", v |-> [i \in 1..Len(e.p) |-> QMat(QMul(e.p[i], e.q[i]))]]
      [] e.op = "inv" -> [k |-> "v", v |-> [i \in 1..Len(e.q) |-> QMat(QInv(e.q[i]))]]
      [] e.op = "vec" -> [k |-> "v", v |-> [i \in 1..Len(e.q) |-> MVec(QMat(e.q[i]), e.x[i])]]
      [] e.op = "euler" -> [k |-> "v", v |-> <<QMat(QEuler(e.ax, e.h, e.ext))>>]
      [] e.op = "sample" -> [k |-> "v", v |-> [i \in 1..Len(e.o) |->
              QMat(QMul(QAxis(1, e.chi[1], e.chi[2]), QAxis(2, e.o[i][1], e.o[i][2])))]]
      [] e.op = "bad" -> [k |-> "err"]
      [] e.op \in {"rd", "rdexp"} -> [k |-> "v", v |-> <<QMat(EulQ(s))>>]
      [] e.op = "rdang" -> [k |-> "v", v |-> s.h, skip |-> ~s.known]
      [] e.op = "rdunits" -> [k |-> "v", v |-> s.units]
      [] OTHER -> [k |-> "ok"]

Next(s, e) ==
    CASE e.op = "setang" -> [s EXCEPT !.known = TRUE, !.h = e.h]
      [] e.op = "setorder" -> [s EXCEPT !.ax = e.ax]
      [] e.op = "setext" -> [s EXCEPT !.ext = e.ext]
      [] e.op = "setunits" -> [s EXCEPT !.units = e.units]
      [] e.op = "setrmat" -> [s EXCEPT !.known = FALSE, !.q = e.q]
      [] OTHER -> s

XJudge(s, e) ==
    LET w == Expect(s, e) o == e.obs
        ok == CASE w.k = "err" -> o.k = "err"
                [] w.k = "ok" -> o.k = "ok"
                [] w.k = "v" -> o.k = "v" /\ (o.v = w.v \/ (e.op = "rdang" /\ w.skip))
        flag == IF o.k = "v" /\ e.op \in {"conv", "prod", "inv"} THEN o.unit /\ o.pos ELSE TRUE
    IN [st |-> Next(s, e),
        bad |-> (IF ok THEN {} ELSE {e.op}) \cup (IF flag THEN {} ELSE {"not-canonical"}), want |-> w]

----------------------------------------------------------------------------
Perms == {<<1,2,3>>, <<3,2,1>>, <<3,1,2>>, <<2,1,3>>, <<2,3,1>>, <<1,3,2>>,
          <<1,2,1>>, <<1,3,1>>, <<2,1,2>>, <<2,3,2>>, <<3,1,3>>, <<3,2,3>>}
Halves == {<<1,0>>, <<1,1>>, <<0,1>>, <<3,-1>>}
Small == {<<1,0,0,0>>, <<0,1,0,0>>, <<0,1,1,0>>, <<1,1,1,1>>, <<1,1,0,0>>, <<2,-1,0,3>>, <<-1,2,2,0>>, <<0,0,-1,2>>}

\* the Euler object's histories, explored exhaustively
MCStart == {[known |-> TRUE, h |-> <<<<1,0>>, <<1,1>>, <<3,-1>>>>, ax |-> a, ext |-> x, units |-> u,
             q |-> <<1,0,0,0>>, first |-> TRUE, n |-> 0] : a \in {<<1,2,3>>, <<3,1,3>>}, x \in BOOLEAN, u \in {"radians", "degrees"}}
MCOps(s) ==
    {[op |-> "setang", h |-> h] : h \in {<<<<3,-1>>, <<2,1>>, <<1,1>>>>, <<<<0,1>>, <<1,1>>, <<1,0>>>>}}
    \cup {[op |-> "setunits", units |-> u] : u \in {"radians", "degrees"}}
    \cup {[op |-> "setrmat", q |-> q] : q \in {<<1,2,-1,3>>, <<0,1,1,0>>, <<1,0,0,0>>}}
    \cup (IF ~s.known THEN {} ELSE
            {[op |-> "setext", ext |-> x] : x \in BOOLEAN}
            \cup {[op |-> "setorder", ax |-> a] : a \in {<<2,3,1>>, <<3,2,3>>}})
MCApply(s, op) == [Next(s, op) EXCEPT !.first = FALSE, !.n = @ + 1]
MCSafe(s) ==
    \* changing units never changes the rotation; setting a rotation is what is read
    /\ QNorm(EulQ(s)) > 0
    /\ s.first =>
        \A p, q \in Small :
          /\ MMul(QMat(p), QMat(q)) = QMat(QMul(p, q))
          /\ QNorm(QMul(p, q)) = QNorm(p) * QNorm(q)
          /\ QMat(QInv(q)) = MT(QMat(q))
          /\ MMul(QMat(q), MT(QMat(q))) = MScale(QNorm(q) * QNorm(q), I3)
          /\ QMat([i \in 1..4 |-> -q[i]]) = QMat(q)
MCSafeStep(s, op) ==
    op.op = "setunits" => EulQ(Next(s, op)) = EulQ(s)
=============================================================================
