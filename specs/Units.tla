------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* C20.  Quantities with units.                                              *)
(* State: regs, a list of quantities made so far.  A quantity is              *)
(*   [dim, unit, c, inv]: c its physical value in the base unit of its        *)
(*   dimension (angstrom, degrees, keV) as an exact decimal, or, if inv, the  *)
(*   value whose energy-wavelength counterpart it is (E = hc / lambda).       *)
(* A decimal is a list of NDig coefficients, of 10^-10 upwards.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NDig == 56
Lo == -10
Zero == [i \in 1..NDig |-> 0]
Dec(m, e) == [Zero EXCEPT ![e - Lo + 1] = m]
DAdd(a, b) == [i \in 1..NDig |-> a[i] + b[i]]
DNeg(a) == [i \in 1..NDig |-> -a[i]]
DScale(a, m) == [i \in 1..NDig |-> a[i] * m]
DShift(a, e) == [i \in 1..NDig |-> IF i - e \in 1..NDig THEN a[i - e] ELSE 0]
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, j) == IF j > NDig THEN 0 ELSE (LET i == k - j + 1 - Lo IN IF i \in 1..NDig THEN a[j] * b[i] ELSE 0) + Conv(a, b, k, j + 1)
DMul(a, b) == [k \in 1..NDig |-> Conv(a, b, k, 1)]
RECURSIVE Carry(_, _, _)
Carry(a, i, cy) == IF i > NDig THEN [d |-> a, top |-> cy]
                   ELSE LET x == a[i] + cy IN Carry([a EXCEPT ![i] = x % 10], i + 1, x \div 10)
\* sign and digits
Norm(a) == LET r == Carry(a, 1, 0) IN
           IF r.top < 0 THEN [neg |-> TRUE, dig |-> Carry(DNeg(a), 1, 0).d] ELSE [neg |-> FALSE, dig |-> r.d]
\* values are kept normalised so that coefficients stay small
DNorm(a) == LET n == Norm(a) IN IF n.neg THEN DNeg(n.dig) ELSE n.dig

Exp10 == ("m" :> 10) @@ ("meter" :> 10) @@ ("mm" :> 7) @@ ("nm" :> 1) @@ ("angstrom" :> 0) @@ ("degrees" :> 0) @@ ("radians" :> 0) @@ ("keV" :> 0) @@ ("J" :> 0)
Units == DOMAIN Exp10
Dim(u) == CASE u \in {"m", "meter", "mm", "nm", "angstrom"} -> "length" [] u \in {"degrees", "radians"} -> "angle" [] u \in {"keV", "J"} -> "energy" [] OTHER -> "none"
Light(d1, d2) == {d1, d2} = {"length", "energy"}
Q(u, c, inv) == [dim |-> Dim(u), unit |-> u, c |-> c, inv |-> inv]
Void == [dim |-> "void", unit |-> "", c |-> Zero, inv |-> FALSE]

\* the value of q expressed in unit u: a decimal (of the base unit of u's
\* dimension) or the reciprocal of one, an error, or outside of the model
In(q, u) == IF q.dim = "void" THEN [k |-> "any"]
            ELSE IF q.dim = "prod" THEN (IF u = q.unit THEN [k |-> "v", c |-> q.c, inv |-> FALSE, must |-> TRUE] ELSE [k |-> "err"])
            ELSE IF u \notin Units THEN [k |-> "err"]
            ELSE IF q.dim = Dim(u) THEN [k |-> "v", c |-> q.c, inv |-> q.inv, must |-> TRUE]
            ELSE IF Light(q.dim, Dim(u)) THEN [k |-> IF q.c = Zero THEN "any" ELSE "v", c |-> q.c, inv |-> ~q.inv, must |-> {q.unit, u} = {"keV", "angstrom"}]
            ELSE [k |-> "err"]
\* reciprocals and joules are read with 6 digits only; digits below lo, the
\* resolution of what the value was made from, cannot be seen
Span(c) == LET n == Norm(c).dig nz == {i \in 1..NDig : n[i] # 0} IN
           IF nz = {} THEN 0 ELSE (CHOOSE i \in nz : \A j \in nz : j <= i) - (CHOOSE i \in nz : \A j \in nz : j >= i) + 1
Narrow(c) == Span(c) \in 1..5
Shown(o, c, inv) == o.k = "v" /\ IF inv THEN (~Narrow(c) \/ o.i = Norm(c)) ELSE ((o.rough /\ ~Narrow(c)) \/ Span(c) > 12 \/ (\E i \in 1..NDig : i < o.lo /\ Norm(c).dig[i] # 0) \/ o.d = Norm(c))
Fits(o, w) == CASE w.k = "any" -> TRUE
                [] w.k = "err" -> o.k = "err"
                [] w.k = "v" -> (o.k = "err" /\ ~w.must) \/ Shown(o, w.c, w.inv)
Lit(e) == LET c == DShift(Dec(e.m, e.x), IF e.inv THEN 0 ELSE Exp10[e.unit]) IN DNorm(c)

\* what an operation makes: a quantity, Void if outside of the model; err: must be refused
Made(s, e) ==
    CASE e.op = "new" -> [q |-> Q(e.unit, Lit(e), e.inv), k |-> "ok"]
      [] e.op = "conv" ->
           LET q == s.regs[e.r] w == In(q, e.u) IN
           IF w.k = "v" /\ q.dim # "prod" THEN [q |-> Q(e.u, w.c, w.inv), k |-> IF w.must THEN "ok" ELSE "may"]
           ELSE IF w.k = "v" THEN [q |-> q, k |-> "ok"] ELSE [q |-> Void, k |-> w.k]
      [] e.op \in {"add", "sub"} ->
           LET a == s.regs[e.a] b == s.regs[e.b] IN
           IF a.dim = "void" \/ b.dim = "void" \/ Light(a.dim, b.dim) THEN [q |-> Void, k |-> "any"]
           ELSE IF a.dim # b.dim \/ a.dim = "prod" THEN [q |-> Void, k |-> IF a.dim = b.dim THEN "any" ELSE "err"]
           ELSE IF a.inv \/ b.inv THEN [q |-> Void, k |-> "any"]
           ELSE [q |-> Q(a.unit, DNorm(DAdd(a.c, IF e.op = "add" THEN b.c ELSE DNeg(b.c))), FALSE), k |-> "ok"]
      [] e.op \in {"addf", "subf"} ->
           LET a == s.regs[e.a] v == IF e.op = "addf" THEN e.m ELSE -e.m IN
           IF a.dim \in {"void", "prod"} \/ a.inv THEN [q |-> Void, k |-> "any"]
           ELSE [q |-> Q(a.unit, DNorm(DAdd(a.c, DShift(Dec(v, 0), Exp10[a.unit]))), FALSE), k |-> IF e.int THEN "may" ELSE "ok"]
      [] e.op = "mulf" ->
           LET a == s.regs[e.a] IN
           IF a.dim \in {"void", "prod"} \/ a.inv THEN [q |-> Void, k |-> "any"]
           ELSE [q |-> Q(a.unit, DNorm(DScale(a.c, e.m)), FALSE), k |-> IF e.int THEN "may" ELSE "ok"]
      [] e.op = "mulq" ->
           LET a == s.regs[e.a] b == s.regs[e.b] IN
           IF a.dim \in {"void", "prod"} \/ b.dim \in {"void", "prod"} \/ a.inv \/ b.inv THEN [q |-> Void, k |-> "any"]
           ELSE [q |-> [dim |-> "prod", unit |-> "(" \o a.unit \o ")*(" \o b.unit \o ")", c |-> DNorm(DMul(a.c, b.c)), inv |-> FALSE], k |-> "ok"]

Kinds(q, o) == o.unit = q.unit /\ o.len = (q.dim = "length") /\ o.ang = (q.dim = "angle") /\ o.en = (q.dim = "energy")
Wave(q, bare) == IF q.dim = "void" THEN [k |-> "any"]
                 ELSE IF q.dim \in {"length", "energy"} THEN (LET w == In(q, "angstrom") IN IF w.k = "any" THEN w ELSE [w EXCEPT !.must = TRUE]) ELSE [k |-> "err"]
Std == <<Q("m", DNorm(Dec(3, 10)), FALSE), Q("meter", DNorm(Dec(25, 9)), FALSE), Q("mm", DNorm(Dec(4, 7)), FALSE), Q("nm", DNorm(Dec(7, 1)), FALSE), Q("angstrom", DNorm(Dec(2, 0)), FALSE),
                       Q("degrees", DNorm(Dec(45, 0)), FALSE), Q("radians", DNorm(Dec(-12, 1)), FALSE), Q("keV", DNorm(Dec(65, 0)), FALSE), Q("J", DNorm(Dec(8, 0)), FALSE), Q("angstrom", DNorm(Dec(5, -1)), TRUE)>>
XBegin(h) == [regs |-> IF h.std THEN Std ELSE <<>>]
XJudge(s, e) ==
    LET o == e.obs IN
    CASE e.op \in {"new", "conv", "add", "sub", "addf", "subf", "mulf", "mulq"} ->
           LET w == Made(s, e)
               good == CASE w.k = "any" -> TRUE
                         [] w.k = "err" -> o.k = "err"
                         [] w.k = "may" -> o.k = "err" \/ (Shown(o, w.q.c, w.q.inv) /\ (e.op = "conv" \/ Kinds(w.q, o)))
                         [] w.k = "ok" -> Shown(o, w.q.c, w.q.inv) /\ (e.op = "conv" \/ Kinds(w.q, o))
           IN [st |-> [regs |-> Append(s.regs, IF w.k \in {"ok", "may"} /\ o.k = "v" THEN w.q ELSE Void)],
               bad |-> (IF good THEN {} ELSE {e.op}) \cup (IF o.pure THEN {} ELSE {"operands changed"}),
               want |-> [k |-> w.k, v |-> Norm(w.q.c), inv |-> w.q.inv]]
      [] e.op = "wave" ->
           LET w == Wave(s.regs[e.r], FALSE) IN
           [st |-> s, bad |-> IF Fits(o, w) THEN {} ELSE {"wavelength"}, want |-> w]
      [] e.op = "kev" ->      \* a bare number is an energy in keV
           LET c == Dec(e.m, e.x) IN
           [st |-> s, bad |-> IF Shown(o, c, TRUE) THEN {} ELSE {"wavelength"}, want |-> Norm(c)]
      [] e.op = "floats" ->
           LET f(i) == LET x == e.of[i] IN IF x.bare THEN [k |-> "v", c |-> DShift(Dec(x.m, 0), Exp10[e.u]), inv |-> FALSE, must |-> TRUE] ELSE In(s.regs[x.r], e.u)
               ws == [i \in 1..Len(e.of) |-> f(i)]
               good == IF \E i \in DOMAIN ws : ws[i].k = "any" THEN TRUE
                       ELSE IF \E i \in DOMAIN ws : ws[i].k = "err" THEN o.k = "err"
                       ELSE (o.k = "err" /\ \E i \in DOMAIN ws : ~ws[i].must)
                            \/ (o.k = "list" /\ Len(o.v) = Len(ws) /\ \A i \in DOMAIN ws : Shown(o.v[i], ws[i].c, ws[i].inv))
           IN [st |-> s, bad |-> IF good THEN {} ELSE {"floats"}, want |-> ws]

----------------------------------------------------------------------------
N0 == 10
MCStart == {[regs |-> Std]}
MCOps(s) == LET n == Len(s.regs) IN
    IF n > N0 THEN {[op |-> "conv", r |-> n, u |-> u] : u \in Units} \cup {[op |-> o, a |-> n, b |-> 1] : o \in {"add", "sub"}} \cup {[op |-> "wave", r |-> n]}
    ELSE {[op |-> "conv", r |-> r, u |-> u] : r \in 1..n, u \in Units \cup {"furlong"}} \cup {[op |-> o, a |-> a, b |-> b] : o \in {"add", "sub", "mulq"}, a \in 1..n, b \in 1..n}
         \cup {[op |-> o, a |-> a, m |-> 3, int |-> i] : o \in {"addf", "subf", "mulf"}, a \in 1..n, i \in BOOLEAN}
MCApply(s, e) == IF e.op = "wave" THEN s ELSE LET w == Made(s, e) IN [regs |-> Append(s.regs, IF w.k \in {"ok", "may"} THEN w.q ELSE Void)]
MCSafe(s) == \A i \in 1..Len(s.regs) : DNorm(s.regs[i].c) = s.regs[i].c
MCSafeStep(s, e) ==
    /\ e.op = "conv" => LET q == s.regs[e.r] w == In(q, e.u) IN
         (w.k = "v" /\ q.dim # "prod") => LET b == In(Q(e.u, w.c, w.inv), q.unit) IN b.k = "v" /\ b.c = q.c /\ b.inv = q.inv
    /\ e.op = "add" => LET x == Made(s, e) y == Made(s, [e EXCEPT !.a = e.b, !.b = e.a]) IN x.k = y.k /\ x.q.c = y.q.c
    /\ e.op = "sub" => LET x == Made(s, e) IN x.k = "ok" =>
         LET y == Made([regs |-> <<x.q, s.regs[e.b]>>], [op |-> "add", a |-> 1, b |-> 2]) IN y.q.c = s.regs[e.a].c
=============================================================================
