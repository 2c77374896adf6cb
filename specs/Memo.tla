-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* C09.  Memoised functions with bounded least-recently-used caches.         *)
(* A call is [f, a, kw]: function number, positional arguments, keyword       *)
(* arguments (a map, hence unordered).  Argument values are structures whose  *)
(* equality is "the function cannot tell them apart": leaves [t, v], arrays   *)
(* [t, dt, sh, v], sequences [t, xs], maps [t, kv], sets [t, el].             *)
(* State: one cache [q, max, hits, miss] per function, q from least to most    *)
(* recently used.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

New(max) == [q |-> <<>>, max |-> max, hits |-> 0, miss |-> 0]
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Trim(q, max) == IF Len(q) <= max THEN q ELSE SubSeq(q, Len(q) - max + 1, Len(q))
Hit(c, x) == [c EXCEPT !.q = Append(Without(c.q, x), x), !.hits = @ + 1]
Miss(c, x) == [c EXCEPT !.q = Trim(Append(c.q, x), c.max), !.miss = @ + 1]
\* a function that, when run with count n > 0, first calls itself with n - 1
Lv(n) == <<"level", ToString(n)>>
RECURSIVE Deep(_, _)
Deep(c, n) == IF Has(c.q, Lv(n)) THEN Hit(c, Lv(n))
              ELSE Miss(IF n = 0 THEN c ELSE Deep(c, n - 1), Lv(n))
KeyOf(e) == <<"call", e.a, e.kw>>
Info(c) == [hits |-> c.hits, misses |-> c.miss, maxsize |-> c.max, currsize |-> Len(c.q)]

Ran(s, e) == ~Has(s[e.f].q, KeyOf(e))
Do(s, e) ==
    CASE e.op = "call" -> [s EXCEPT ![e.f] = IF Has(@.q, KeyOf(e)) THEN Hit(@, KeyOf(e)) ELSE Miss(@, KeyOf(e))]
      [] e.op = "fail" -> s
      [] e.op = "deep" -> [s EXCEPT ![e.f] = Deep(@, e.n)]
      [] e.op = "max" -> [s EXCEPT ![e.f] = [@ EXCEPT !.max = e.n, !.q = Trim(@, e.n)]]
      [] e.op = "grow" -> [s EXCEPT ![e.f] = [@ EXCEPT !.max = IF @ < e.n THEN e.n ELSE @]]
      [] e.op = "poke" -> s

----------------------------------------------------------------------------
XBegin(h) == [i \in 1..Len(h.max) |-> New(h.max[i])]
\* what the function itself returns: a description of its arguments and the
\* arrays among them
XJudge(s, e) ==
    IF e.op = "query"   \* a query on a panel: what the plain function gives, right now
    THEN [st |-> s, bad |-> IF e.obs = [k |-> "ok", res |-> e.plain] THEN {} ELSE {"stale"}, want |-> e.plain]
    ELSE LET d == Do(s, e) o == e.obs
             info == [i \in 1..Len(d) |-> Info(d[i])]
         IN [st |-> d,
             bad |-> (IF e.op = "fail" THEN (IF o.k = "err" THEN {} ELSE {"lost error"})
                      ELSE IF o.k # "ok" THEN {"error"}
                      ELSE IF e.op = "call" THEN
                          (IF o.res = [a |-> e.a, kw |-> e.kw] THEN {} ELSE {"result"})
                          \cup (IF o.arr THEN {} ELSE {"arrays"})
                          \cup (IF o.ran = Ran(s, e) THEN {} ELSE {"ran"})
                          \cup (IF o.same THEN {} ELSE {"arguments"})
                      ELSE {})
                     \cup (IF o.info = info THEN {} ELSE {"info"}),
             want |-> [info |-> info]]

----------------------------------------------------------------------------
\* Exhaustive: two functions, few calls
L(t, v) == [t |-> t, v |-> v]
Vals == {L("int", "1"), L("float", "1.0"), L("bool", "True"), [t |-> "list", xs |-> <<L("int", "1")>>]}
Calls == {[op |-> "call", f |-> f, a |-> <<v>>, kw |-> <<>>] : f \in {1, 2}, v \in Vals}
         \cup {[op |-> "call", f |-> 1, a |-> <<>>, kw |-> [x |-> L("int", "1")]],
               [op |-> "call", f |-> 1, a |-> <<L("int", "1"), L("int", "1")>>, kw |-> <<>>]}
MCStart == {<<New(m), New(n)>> : m \in 1..3, n \in {1, 2}}
MCOps(s) == Calls \cup {[op |-> "max", f |-> 1, n |-> n] : n \in 0..3} \cup {[op |-> "fail", f |-> 1]}
            \cup {[op |-> "deep", f |-> 1, n |-> n] : n \in {2}} \cup {[op |-> "grow", f |-> 1, n |-> 2]}
MCApply(s, e) == Do(s, e)
Distinct(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
MCSafe(s) == \A i \in 1..Len(s) : Len(s[i].q) <= s[i].max /\ Distinct(s[i].q)
                                  /\ s[i].miss >= Len(s[i].q)
MCSafeStep(s, e) ==
    LET d == Do(s, e) IN
    /\ e.op = "call" =>
         /\ d[e.f].hits + d[e.f].miss = s[e.f].hits + s[e.f].miss + 1
         \* the call just made is the last one to be forgotten, the rest keep their order
         /\ (d[e.f].max > 0 => d[e.f].q[Len(d[e.f].q)] = KeyOf(e))
         /\ \A x, y \in {d[e.f].q[i] : i \in 1..Len(d[e.f].q)} \ {KeyOf(e)} :
               LET ix(q, z) == CHOOSE i \in 1..Len(q) : q[i] = z
               IN (ix(d[e.f].q, x) <= ix(d[e.f].q, y)) = (ix(s[e.f].q, x) <= ix(s[e.f].q, y))
         /\ \A i \in 1..Len(s) : i # e.f => d[i] = s[i]
    /\ \A i \in 1..Len(s) : d[i].hits >= s[i].hits /\ d[i].miss >= s[i].miss
=============================================================================
