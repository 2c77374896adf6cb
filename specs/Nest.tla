-------------------------------- MODULE Nest --------------------------------
(***************************************************************************)
(* C16.  Nested dictionaries in the HDF5, JSON and YAML stores.              *)
(* Trees: block [t "b", m], nothing [t "n"], text [t "s", v], bytes [t "y", v]*)
(* boolean [t "o", v], number [t "f", v] (v: the shortest text of the value), *)
(* complex [t "c", v], list [t "l", xs], array [t "a", kind, dt, sh, xs] (xs  *)
(* the leaf texts in row-major order; kind the leaf tag).                     *)
(* State: the file, a map from group names to blocks.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Leaf(x) == x.t \in {"s", "y", "o", "f", "c"}
RECURSIVE Prod(_)
Prod(sh) == IF sh = <<>> THEN 1 ELSE sh[1] * Prod(Tail(sh))

(* ----- lists as arrays (what HDF5 can hold) ----- *)
RECURSIVE Shape(_)   \* of a regular list; only meaningful if Regular
Shape(x) == IF x.t = "l" THEN (IF x.xs = <<>> THEN <<0>> ELSE <<Len(x.xs)>> \o Shape(x.xs[1]))
            ELSE IF x.t = "a" THEN x.sh ELSE <<>>
RECURSIVE Regular(_)
Regular(x) == CASE x.t = "l" -> \A i \in 1..Len(x.xs) : Regular(x.xs[i]) /\ Shape(x.xs[i]) = Shape(x.xs[1])
                [] x.t \in {"n", "b"} -> FALSE
                [] OTHER -> TRUE
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Flat(_)    \* the leaf texts
Flat(x) == IF x.t = "l" THEN Cat([i \in 1..Len(x.xs) |-> Flat(x.xs[i])])
           ELSE IF x.t = "a" THEN x.xs ELSE <<x.v>>
RECURSIVE Tags(_)
Tags(x) == IF x.t = "l" THEN UNION {Tags(x.xs[i]) : i \in 1..Len(x.xs)}
           ELSE IF x.t = "a" THEN {x.kind} ELSE {x.t}
\* booleans count as numbers among numbers
Uniform(ts) == ts = {} \/ Cardinality(ts) = 1 \/ ts \subseteq {"o", "f", "c"}
Kind(ts) == IF ts = {} THEN "f" ELSE IF Cardinality(ts) = 1 THEN CHOOSE t \in ts : TRUE
            ELSE IF "c" \in ts THEN "c" ELSE "f"
Num(v) == IF v = "true" THEN "1" ELSE IF v = "false" THEN "0" ELSE v
\* a one-element list reads back as its element
One(sh) == IF sh = <<1>> THEN <<>> ELSE sh
H5Leaf(x) == LET k == Kind(Tags(x)) f == Flat(x) IN
    [kind |-> IF Len(f) = 0 THEN "f" ELSE k, sh |-> One(Shape(x)),
     xs |-> IF k \in {"f", "c"} THEN [i \in 1..Len(f) |-> Num(f[i])] ELSE f,
     dt |-> IF x.t = "a" /\ k # "s" /\ Len(f) > 0 THEN x.dt ELSE "any"]
H5Holds(x) == Regular(x) /\ Uniform(Tags(x))
\* what was read agrees
H5Same(x, r) == LET w == H5Leaf(x) IN
    /\ r.t # "b" /\ r.t # "n" /\ Regular(r)
    /\ LET g == H5Leaf(r) IN /\ g.sh = w.sh /\ g.kind = w.kind /\ g.xs = w.xs
                             /\ (w.dt = "any" \/ r.t # "a" \/ r.dt = w.dt)

RECURSIVE H5Can(_)
H5Can(x) == IF x.t = "b" THEN \A k \in DOMAIN x.m : H5Can(x.m[k]) ELSE x.t = "n" \/ H5Holds(x)
RECURSIVE H5Back(_, _)
H5Back(x, r) ==
    IF x.t = "b" THEN /\ r.t = "b"
                      /\ DOMAIN r.m = {k \in DOMAIN x.m : x.m[k].t # "n"}
                      /\ \A k \in DOMAIN r.m : H5Back(x.m[k], r.m[k])
    ELSE H5Same(x, r)

(* ----- JSON: arrays come back as arrays, tuples as lists ----- *)
RECURSIVE JCan(_)
JCan(x) == CASE x.t = "b" -> \A k \in DOMAIN x.m : JCan(x.m[k])
             [] x.t = "l" -> \A i \in 1..Len(x.xs) : JCan(x.xs[i])
             [] x.t \in {"y", "c"} -> FALSE
             [] OTHER -> TRUE
RECURSIVE JBack(_, _)
JBack(x, r) == /\ x.t = r.t
               /\ CASE x.t = "b" -> DOMAIN x.m = DOMAIN r.m /\ \A k \in DOMAIN x.m : JBack(x.m[k], r.m[k])
                    [] x.t = "l" -> Len(x.xs) = Len(r.xs) /\ \A i \in 1..Len(x.xs) : JBack(x.xs[i], r.xs[i])
                    [] x.t = "a" -> x = r
                    [] x.t = "n" -> TRUE
                    [] OTHER -> x.v = r.v

(* ----- plain encoders: arrays become (nested) lists ----- *)
RECURSIVE Rows(_, _, _)
Rows(kind, sh, xs) ==
    IF sh = <<>> THEN [t |-> kind, v |-> xs[1]]
    ELSE LET n == Prod(Tail(sh)) IN
         [t |-> "l", xs |-> [i \in 1..sh[1] |-> Rows(kind, Tail(sh), SubSeq(xs, (i - 1) * n + 1, i * n))]]
RECURSIVE Native(_)
Native(x) == CASE x.t = "b" -> [t |-> "b", m |-> [k \in DOMAIN x.m |-> Native(x.m[k])]]
               [] x.t = "l" -> [t |-> "l", xs |-> [i \in 1..Len(x.xs) |-> Native(x.xs[i])]]
               [] x.t = "a" -> Rows(x.kind, x.sh, x.xs)
               [] OTHER -> x
RECURSIVE NCan(_, _)
NCan(x, no) == CASE x.t = "b" -> \A k \in DOMAIN x.m : NCan(x.m[k], no)
                 [] x.t = "l" -> \A i \in 1..Len(x.xs) : NCan(x.xs[i], no)
                 [] x.t = "a" -> x.kind \notin no
                 [] OTHER -> x.t \notin no

----------------------------------------------------------------------------
\* groups of a file
Empty == [t |-> "b", m |-> <<>>]
Group(s, g) == IF g \in DOMAIN s THEN s[g] ELSE Empty
Clash(a, b) == {k \in DOMAIN a.m \cap DOMAIN b.m : b.m[k].t # "n" /\ a.m[k].t # "n"}
Over(a, b) == [t |-> "b", m |-> [k \in DOMAIN a.m \cup DOMAIN b.m |->
                 IF k \in DOMAIN b.m /\ b.m[k].t # "n" THEN b.m[k] ELSE IF k \in DOMAIN a.m THEN a.m[k] ELSE b.m[k]]]
Do(s, e) == IF e.op = "write" THEN [g \in DOMAIN s \cup {e.g} |-> IF g = e.g THEN Over(Group(s, g), e.d) ELSE s[g]] ELSE s

\* may / must the event be refused, and does the result agree
Must(s, e) == e.op = "write" /\ Clash(Group(s, e.g), e.d) # {}
Can(h, s, e) == IF e.op # "write" THEN TRUE
                ELSE CASE h = "h5" -> H5Can(e.d) [] h = "json" -> JCan(e.d)
                       [] h = "plain" -> NCan(e.d, {"y", "c"}) [] h = "yaml" -> NCan(e.d, {"c"})
Agrees(h, x, r) == CASE h = "h5" -> H5Back(x, r) [] h = "json" -> JBack(x, r) [] OTHER -> JBack(Native(x), r)

XBegin(h) == [h |-> h.store, f |-> <<>>, ok |-> TRUE]
XJudge(s, e) ==
    LET o == e.obs d == Do(s.f, e)
        bad == IF ~s.ok THEN {}
               ELSE (IF o.same THEN {} ELSE {"source changed"})
               \cup (IF e.op = "write" THEN
                        (IF Must(s.f, e) THEN (IF o.k = "err" THEN {} ELSE {"overwritten"})
                         ELSE IF o.k = "err" /\ Can(s.h, s.f, e) /\ ~e.maybe THEN {"refused"} ELSE {})
                     ELSE IF o.k = "err" THEN {"unreadable"}
                     ELSE LET gr == Group(s.f, e.g)
                              held == {k \in DOMAIN gr.m : gr.m[k].t # "n" \/ s.h # "h5"} IN
                          \* entries that were there before reading stay, unless stored
                          IF /\ DOMAIN o.d.m = held \cup DOMAIN e.pre.m
                             /\ \A k \in DOMAIN o.d.m : IF k \in held THEN Agrees(s.h, gr.m[k], o.d.m[k]) ELSE e.pre.m[k] = o.d.m[k]
                          THEN {} ELSE {"read back"})
    \* after a refusal the file's contents are unspecified
    IN [st |-> [s EXCEPT !.f = d, !.ok = @ /\ o.k # "err"], bad |-> bad, want |-> IF e.op = "read" THEN Group(s.f, e.g) ELSE Empty]

----------------------------------------------------------------------------
N(v) == [t |-> "f", v |-> v]
S(v) == [t |-> "s", v |-> v]
Items == {N("1"), S("a"), [t |-> "o", v |-> "true"], [t |-> "n"], [t |-> "y", v |-> "a"],
          [t |-> "l", xs |-> <<>>], [t |-> "l", xs |-> <<N("1")>>], [t |-> "l", xs |-> <<S("a"), S("b")>>],
          [t |-> "l", xs |-> <<N("1"), S("b")>>], [t |-> "l", xs |-> <<[t |-> "l", xs |-> <<N("1"), N("2")>>], [t |-> "l", xs |-> <<N("3"), N("4")>>]>>],
          [t |-> "a", kind |-> "f", dt |-> "<f8", sh |-> <<1, 2>>, xs |-> <<"1", "2">>],
          [t |-> "a", kind |-> "s", dt |-> "<U1", sh |-> <<2>>, xs |-> <<"a", "b">>]}
Deep == {[t |-> "b", m |-> <<>>]} \cup {[t |-> "b", m |-> [p |-> x]] : x \in Items}
MCStart == {[h |-> h, f |-> <<>>, ok |-> TRUE] : h \in {"h5", "json", "plain", "yaml"}}
MCOps(s) == IF s.f = <<>> THEN
               {[op |-> "write", g |-> "", d |-> [t |-> "b", m |-> [x |-> x]]] : x \in Items \cup Deep}
               \cup {[op |-> "write", g |-> "", d |-> [t |-> "b", m |-> [x |-> x, y |-> [t |-> "b", m |-> [z |-> y]]]]] : x, y \in Items}
            ELSE {[op |-> "read", g |-> "", pre |-> Empty]}
                 \cup (IF s.h = "h5" THEN {[op |-> "write", g |-> "", d |-> [t |-> "b", m |-> [y |-> N("2")]]],
                                           [op |-> "read", g |-> "", pre |-> [t |-> "b", m |-> [w |-> S("kept")]]]} ELSE {})
MCApply(s, e) == [s EXCEPT !.f = Do(@, e), !.ok = @ /\ ~Must(s.f, e) /\ Can(s.h, s.f, e)]
MCSafe(s) == \A g \in DOMAIN s.f : LET x == s.f[g] IN
    \* plain encoding is idempotent, leaves no array, and is the identity without arrays
    /\ Native(Native(x)) = Native(x)
    /\ NCan(x, {"y", "c"}) = NCan(Native(x), {"y", "c"})
    /\ JBack(Native(x), Native(x))
    /\ (H5Can(x) => \A k \in DOMAIN x.m : (x.m[k].t \notin {"b", "n"}) => H5Same(x.m[k], x.m[k]) /\ Len(Flat(x.m[k])) = Prod(Shape(x.m[k])))
MCSafeStep(s, e) == e.op = "read" => Do(s.f, e) = s.f
=============================================================================
