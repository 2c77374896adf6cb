------------------------------- MODULE Alias --------------------------------
(***************************************************************************)
(* C17.  Import names of relocated modules.                                  *)
(* A table [map, exists, broken, shadow, pkg]: map from old dotted names to   *)
(* the list of new ones, the set of modules that exist, those that fail by    *)
(* themselves, and the package attributes that hide a submodule.             *)
(* State: [tbl, ids]: ids binds every module seen so far to its object.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Has(f, x) == x \in DOMAIN f
Rng(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Dot(_)
Dot(p) == IF Len(p) = 1 THEN p[1] ELSE Dot(SubSeq(p, 1, Len(p) - 1)) \o "." \o p[Len(p)]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Fail == "-"

\* news: list of [name, parts]; the core one, else the first
IsCore(x) == \E i \in 1..Len(x.parts) : x.parts[i] = "core"
Pick(news) == LET c == {i \in 1..Len(news) : IsCore(news[i])}
              IN IF c = {} THEN news[1].name ELSE news[CHOOSE i \in c : \A j \in c : i <= j].name
RECURSIVE Canon(_, _)
Canon(T, p) ==
    LET d == Dot(p) IN
    IF Has(T.map, d) THEN (IF Pick(T.map[d]) \in T.exists THEN Pick(T.map[d]) ELSE Fail)
    ELSE IF d \in T.exists THEN d
    ELSE IF Len(p) = 1 THEN Fail
    ELSE LET q == Canon(T, Parent(p)) pd == Dot(Parent(p)) IN
         IF q = Fail \/ q = pd THEN Fail
         \* a new submodule of a relocated package
         ELSE LET c == <<q>> \o (IF Has(T.map, pd) THEN [i \in 1..Len(T.map[pd]) |-> T.map[pd][i].name] ELSE <<>>)
                  ok == {i \in 1..Len(c) : (c[i] \o "." \o p[Len(p)]) \in T.exists}
              IN IF ok = {} THEN Fail ELSE c[CHOOSE i \in ok : \A j \in ok : i <= j] \o "." \o p[Len(p)]

\* what an import statement must give: a module, an object, or an error
Want(T, e) ==
    LET c == Canon(T, e.n)
        hid == c # Fail /\ c \in T.shadow
    IN IF c = Fail THEN [k |-> "err"]
       ELSE IF c \in T.broken THEN [k |-> "any"]
       ELSE IF hid /\ e.form # "import" THEN [k |-> "obj", name |-> c]
       ELSE [k |-> "mod", name |-> c]

\* an attribute of a new package may also be a module that its old package has
Moved(T, e, name) ==
    LET q == Canon(T, Parent(e.n)) last == e.n[Len(e.n)] IN
    \E pd \in DOMAIN T.map : Pick(T.map[pd]) = q /\ LET d == pd \o "." \o last IN
        IF Has(T.map, d) THEN Pick(T.map[d]) = name ELSE \E i \in 1..Len(T.map[pd]) : T.map[pd][i].name \o "." \o last = name

XTables == ndJsonDeserialize(IOEnv.VF_TABLE)
\* sets travel as sequences
Tbl(i) == LET t == XTables[i] IN [map |-> t.map, exists |-> Rng(t.exists), broken |-> Rng(t.broken), shadow |-> Rng(t.shadow)]
XBegin(h) == [tbl |-> h.table, ids |-> <<>>]
Bind(ids, n, u) == IF Has(ids, n) THEN ids ELSE [x \in DOMAIN ids \cup {n} |-> IF x = n THEN u ELSE ids[x]]
XJudge(s, e) ==
    LET o == e.obs T == Tbl(s.tbl) IN
    IF e.op = "scan" THEN
        \* every module in memory stands under names that mean it, and was run once
        LET bad == {i \in 1..Len(e.mods) : LET m == e.mods[i] c == Canon(T, m.n) IN
                       ~(c = m.name \/ (c # Fail /\ c \in T.broken)) \/ (Has(s.ids, m.name) /\ s.ids[m.name] # m.u)
                       \/ \E j \in 1..Len(e.mods) : e.mods[j].name = m.name /\ e.mods[j].u # m.u}
        IN [st |-> s, bad |-> (IF bad = {} THEN {} ELSE {"module table"}) \cup (IF e.twice = <<>> THEN {} ELSE {"run twice"}),
            want |-> [bad |-> {e.mods[i] : i \in bad}]]
    ELSE LET w == Want(T, e)
             ok == CASE w.k = "any" -> TRUE
                     [] w.k = "err" -> o.k = "err" \/ (o.k = "mod" /\ e.form = "from" /\ Len(e.n) > 1 /\ Moved(T, e, o.name))
                     [] w.k = "mod" -> o.k = "mod" /\ o.name = w.name /\ (Has(s.ids, w.name) => s.ids[w.name] = o.u)
                     [] w.k = "obj" -> o.k = "obj" /\ o.same
         IN [st |-> IF w.k = "mod" THEN [s EXCEPT !.ids = Bind(@, w.name, o.u)] ELSE s,
             bad |-> IF ok THEN {} ELSE {e.form}, want |-> w]

----------------------------------------------------------------------------
\* small trees to be laid out on disk and imported from in every order
N(parts) == [name |-> Dot(parts), parts |-> parts]
Base == {"hexrd", "hexrd.core", "hexrd.hedm", "hexrd.hed"}
T1 == [map |-> ("hexrd.a" :> <<N(<<"hexrd", "hedm", "a">>), N(<<"hexrd", "core", "a">>)>>) @@ ("hexrd.a.x" :> <<N(<<"hexrd", "core", "a", "x">>)>>)
              @@ ("hexrd.a.y" :> <<N(<<"hexrd", "hedm", "a", "y">>)>>) @@ ("hexrd.a.w" :> <<N(<<"hexrd", "core", "a", "w">>)>>)
              @@ ("hexrd.s" :> <<N(<<"hexrd", "hedm", "s">>), N(<<"hexrd", "core", "s">>)>>) @@ ("hexrd.gone" :> <<N(<<"hexrd", "core", "gone">>)>>),
       exists |-> Base \cup {"hexrd.core.a", "hexrd.hedm.a", "hexrd.core.a.x", "hexrd.hedm.a.y", "hexrd.core.a.w", "hexrd.core.a.z", "hexrd.hedm.a.v", "hexrd.hedm.s", "hexrd.core.s"},
       broken |-> {}, shadow |-> {"hexrd.core.a.w"}, pkg |-> {"hexrd.core.a", "hexrd.hedm.a"}, ns |-> {}]
T2 == [map |-> ("hexrd.p" :> <<N(<<"hexrd", "hedm", "p">>), N(<<"hexrd", "hed", "p">>)>>) @@ ("hexrd.p.u" :> <<N(<<"hexrd", "hedm", "p", "u">>), N(<<"hexrd", "hed", "p", "u">>)>>)
              @@ ("hexrd.p.v" :> <<N(<<"hexrd", "hed", "p", "v">>)>>) @@ ("hexrd.n" :> <<N(<<"hexrd", "core", "n">>)>>)
              @@ ("hexrd.n.m" :> <<N(<<"hexrd", "core", "n", "m">>)>>) @@ ("hexrd.n.k.r" :> <<N(<<"hexrd", "core", "n", "k", "r">>)>>)
              @@ ("hexrd.bad" :> <<N(<<"hexrd", "core", "bad">>)>>),
       exists |-> Base \cup {"hexrd.hedm.p", "hexrd.hed.p", "hexrd.hedm.p.u", "hexrd.hed.p.u", "hexrd.hed.p.v", "hexrd.core.n", "hexrd.core.n.m", "hexrd.core.n.k", "hexrd.core.n.k.r", "hexrd.core.n.k.q", "hexrd.core.bad"},
       broken |-> {"hexrd.core.bad"}, shadow |-> {}, pkg |-> {"hexrd.hedm.p", "hexrd.hed.p"}, ns |-> {"hexrd.core.n", "hexrd.core.n.k"}]
Names(T) == IF Has(T.map, "hexrd.a")
            THEN {<<"hexrd", "a">>, <<"hexrd", "a", "x">>, <<"hexrd", "a", "y">>, <<"hexrd", "a", "w">>, <<"hexrd", "a", "z">>, <<"hexrd", "a", "v">>, <<"hexrd", "s">>, <<"hexrd", "gone">>,
                  <<"hexrd", "core", "a">>, <<"hexrd", "core", "a", "x">>, <<"hexrd", "core", "a", "y">>, <<"hexrd", "core", "a", "w">>, <<"hexrd", "hedm", "a", "y">>, <<"hexrd", "hedm", "s">>, <<"hexrd", "a", "no">>, <<"hexrd", "q">>}
            ELSE {<<"hexrd", "p">>, <<"hexrd", "p", "u">>, <<"hexrd", "p", "v">>, <<"hexrd", "n">>, <<"hexrd", "n", "m">>, <<"hexrd", "n", "k">>, <<"hexrd", "n", "k", "r">>, <<"hexrd", "n", "k", "q">>,
                  <<"hexrd", "bad">>, <<"hexrd", "core", "n", "k">>, <<"hexrd", "core", "n", "k", "q">>, <<"hexrd", "hed", "p", "u">>, <<"hexrd", "hed", "p", "v">>, <<"hexrd", "hedm", "p", "v">>, <<"hexrd", "core", "bad">>, <<"hexrd", "p", "no">>}
MCStart == {[tbl |-> 1, ids |-> <<>>, T |-> T1], [tbl |-> 2, ids |-> <<>>, T |-> T2]}
MCOps(s) == {[op |-> "imp", form |-> f, n |-> n] : f \in {"import", "from", "dotted"}, n \in Names(s.T)}
MCApply(s, e) == LET w == Want(s.T, e) IN IF w.k = "mod" THEN [s EXCEPT !.ids = Bind(@, w.name, Cardinality(DOMAIN @) + 1)] ELSE s
MCSafe(s) == /\ \A n \in DOMAIN s.ids : n \in s.T.exists
             /\ \A a, b \in DOMAIN s.ids : s.ids[a] = s.ids[b] => a = b
             /\ s.ids = <<>> => \A n \in Names(s.T) : LET c == Canon(s.T, n) IN c # Fail => c \in s.T.exists
MCSafeStep(s, e) == \A n \in Names(s.T) : Canon(s.T, n) = Canon(MCApply(s, e).T, n)
=============================================================================
