-------------------------------- MODULE Cfg ---------------------------------
(***************************************************************************)
(* C08.  Configurations as nested maps.                                      *)
(* A tree is a leaf [t, v] (t: "i" integer with field i, "f", "s" text, "o"   *)
(* boolean, "l" list, "n" nothing; v its text) or a block [t |-> "b", m] with *)
(* m a map from keys to trees.  State: the list of configurations opened,     *)
(* each [tree, dirty].                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == [t |-> "n", v |-> "null"]
IsB(x) == x.t = "b"
Empty == [t |-> "b", m |-> <<>>]
Keys(x) == DOMAIN x.m
RECURSIVE Eq(_, _)
Eq(a, b) == IF a.t # b.t THEN FALSE
            ELSE IF IsB(a) THEN Keys(a) = Keys(b) /\ \A k \in Keys(a) : Eq(a.m[k], b.m[k])
            ELSE a.v = b.v
\* a later document over an earlier one
RECURSIVE Merge(_, _)
Merge(a, b) ==
    [t |-> "b", m |-> [k \in Keys(a) \cup Keys(b) |->
        IF k \notin Keys(b) THEN a.m[k]
        ELSE LET v == b.m[k] o == IF k \in Keys(a) THEN a.m[k] ELSE Nothing IN
             IF IsB(v) THEN Merge(IF IsB(o) THEN o ELSE Empty, v)
             ELSE IF v.t = "n" /\ o.t # "n" THEN o ELSE v]]
RECURSIVE Fold(_)
Fold(ds) == IF Len(ds) = 1 THEN ds[1] ELSE Merge(Fold(SubSeq(ds, 1, Len(ds) - 1)), ds[Len(ds)])
Open(ds) == [n \in 1..Len(ds) |-> [tree |-> Fold(SubSeq(ds, 1, n)), dirty |-> FALSE]]

\* path access: "odd" when the path runs through a plain value
Absent == [t |-> "absent", v |-> ""]
Odd == [t |-> "odd", v |-> ""]
RECURSIVE At(_, _)
At(x, p) == IF p = <<>> THEN x
            ELSE IF x.t = "n" THEN Absent
            ELSE IF ~IsB(x) THEN Odd
            ELSE IF Head(p) \notin Keys(x) THEN Absent ELSE At(x.m[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(x, p, v) == IF p = <<>> THEN v
    ELSE LET y == IF IsB(x) THEN x ELSE Empty
             sub == IF Head(p) \in Keys(y) THEN y.m[Head(p)] ELSE Nothing
         IN [t |-> "b", m |-> [k \in Keys(y) \cup {Head(p)} |-> IF k = Head(p) THEN Put(sub, Tail(p), v) ELSE y.m[k]]]
\* set is refused when the path runs through a plain value
CanSet(x, p) == At(x, SubSeq(p, 1, Len(p) - 1)).t \in {"absent", "n", "b"}
\* integers, floats and booleans of equal value are the same value
Numeric(x) == x.t \in {"i", "f", "o"}
SetC(c, p, v) == IF ~CanSet(c.tree, p) THEN c
    ELSE IF Eq(At(c.tree, p), v) THEN c ELSE [tree |-> Put(c.tree, p, v), dirty |-> TRUE]

Do(s, e) ==
    CASE e.op = "open" -> Open(e.docs)
      [] e.op \in {"set", "setprop"} -> [s EXCEPT ![e.n] = SetC(@, e.p, e.v)]
      [] e.op = "dump" -> [s EXCEPT ![e.n] = [@ EXCEPT !.dirty = FALSE]]
      [] e.op = "reopen" -> Open([n \in 1..Len(s) |-> s[n].tree])
      [] e.op = "redump" -> Open(<<s[e.n].tree>>)
      [] OTHER -> s

----------------------------------------------------------------------------
\* documented attributes: <<path, rule, default>>; "req" has no default
I(n) == [t |-> "i", v |-> ToString(n), i |-> n]
F(x) == [t |-> "f", v |-> x]
B(b) == [t |-> "o", v |-> IF b THEN "true" ELSE "false"]
FO == "find_orientations"
FG == "fit_grains"
Attr ==
   [fo_threshold |-> <<<<FO, "threshold">>, "plain", I(1)>>,
    fo_extract |-> <<<<FO, "extract_measured_g_vectors">>, "plain", B(FALSE)>>,
    ome_tol |-> <<<<FO, "omega", "tolerance">>, "plain", F("0.5")>>,
    eta_tol |-> <<<<FO, "eta", "tolerance">>, "plain", F("0.5")>>,
    eta_mask |-> <<<<FO, "eta", "mask">>, "plain", I(5)>>,
    eta_range |-> <<<<FO, "eta", "mask">>, "mask", I(5)>>,
    om_active |-> <<<<FO, "orientation_maps", "active_hkls">>, "hkls", [t |-> "s", v |-> "\"all\""]>>,
    om_bin |-> <<<<FO, "orientation_maps", "bin_frames">>, "plain", I(1)>>,
    om_step |-> <<<<FO, "orientation_maps", "eta_step">>, "plain", F("0.25")>>,
    om_thr |-> <<<<FO, "orientation_maps", "threshold">>, "req", Nothing>>,
    om_filter |-> <<<<FO, "orientation_maps", "filter_maps">>, "plain", B(FALSE)>>,
    seeds |-> <<<<FO, "seed_search", "hkl_seeds">>, "seeds", Nothing>>,
    step |-> <<<<FO, "seed_search", "fiber_step">>, "step", F("0.5")>>,
    alg |-> <<<<FO, "clustering", "algorithm">>, "alg", [t |-> "s", v |-> "\"dbscan\""]>>,
    compl |-> <<<<FO, "clustering", "completeness">>, "some", Nothing>>,
    radius |-> <<<<FO, "clustering", "radius">>, "some", Nothing>>,
    do_fit |-> <<<<FG, "do_fit">>, "plain", B(TRUE)>>,
    npdiv |-> <<<<FG, "npdiv">>, "plain", I(2)>>,
    fg_thr |-> <<<<FG, "threshold">>, "req", Nothing>>,
    tol_eta |-> <<<<FG, "tolerance", "eta">>, "pair", Nothing>>,
    tol_ome |-> <<<<FG, "tolerance", "omega">>, "pair", Nothing>>,
    tol_tth |-> <<<<FG, "tolerance", "tth">>, "pair", Nothing>>,
    refit |-> <<<<FG, "refit">>, "refit", Nothing>>,
    skip |-> <<<<FG, "skip_on_estimate">>, "bool", B(FALSE)>>,
    fit_only |-> <<<<FG, "fit_only">>, "bool", B(FALSE)>>,
    tth_max |-> <<<<FG, "tth_max">>, "tthmax", B(TRUE)>>,
    active |-> <<<<"material", "active">>, "req", Nothing>>,
    dmin |-> <<<<"material", "dmin">>, "plain", F("0.5")>>,
    tthw |-> <<<<"material", "tth_width">>, "nonnull", F("0.25")>>,
    fminr |-> <<<<"material", "min_sfac_ratio">>, "plain", Nothing>>,
    newfile |-> <<<<"new_file_placement">>, "plain", B(FALSE)>>,
    name |-> <<<<"analysis_name">>, "text", [t |-> "s", v |-> "\"analysis\""]>>,
    mp |-> <<<<"multiprocessing">>, "mp", I(-1)>>]
Err == [t |-> "err", v |-> ""]
Free == [t |-> "any", v |-> ""]
Pair(x) == [t |-> "l", v |-> "[" \o x.v \o ", " \o x.v \o "]"]
Single(x) == [t |-> "l", v |-> "[" \o x.v \o "]"]
L4(a, b, c, d) == [t |-> "l", v |-> "[[" \o ToString(a) \o ", " \o ToString(b) \o "], [" \o ToString(c) \o ", " \o ToString(d) \o "]]"]
Clamp(lo, x, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Algs == {"\"dbscan\"", "\"ort-dbscan\"", "\"sph-dbscan\"", "\"fclusterdata\""}
Value(tree, name, cpus) ==
    LET a == Attr[name] x0 == At(tree, a[1]) rule == a[2]
        x == IF x0.t = "absent" THEN a[3] ELSE x0 IN
    IF x0.t = "odd" THEN IF rule \in {"seeds"} THEN Free ELSE Free
    ELSE IF IsB(x) THEN Free
    ELSE CASE rule = "plain" -> x
      [] rule = "req" -> IF x0.t = "absent" THEN Err ELSE x
      [] rule = "some" -> IF x.t = "n" THEN Err ELSE x
      [] rule = "nonnull" -> IF x.t = "n" THEN a[3] ELSE x
      [] rule = "pair" -> IF x0.t = "absent" THEN Err ELSE IF x.t \in {"i", "f"} THEN Pair(x) ELSE IF x.t = "o" THEN Free ELSE x
      [] rule = "refit" -> IF x.t \in {"i", "f"} THEN Pair(x) ELSE IF x.t \in {"l", "n"} THEN x ELSE IF x.t = "o" THEN Free ELSE Err
      [] rule = "bool" -> IF x.t = "o" THEN x ELSE IF x.t \in {"i", "f"} THEN Free ELSE Err
      [] rule = "tthmax" -> IF x.t = "o" THEN x ELSE IF x.t = "i" THEN (IF x.i > 0 THEN x ELSE Err) ELSE IF x.t = "f" THEN Free ELSE Err
      [] rule = "text" -> IF x.t = "s" THEN x ELSE Free
      [] rule = "mask" -> IF x.t = "n" THEN x ELSE IF x.t = "i" THEN L4(x.i - 90, 90 - x.i, 90 + x.i, 270 - x.i) ELSE Free
      [] rule = "hkls" -> IF x.t = "i" THEN Single(x) ELSE IF x.t = "n" \/ x.v = "\"all\"" THEN Nothing ELSE IF x.t = "l" THEN x ELSE Free
      [] rule = "seeds" -> IF x0.t = "absent"
                           THEN LET g == At(tree, <<FO, "use_quaternion_grid">>) IN IF g.t \in {"absent", "n"} THEN Err ELSE Free
                           ELSE IF x.t = "i" THEN Single(x) ELSE IF x.t = "o" THEN Free ELSE x
      [] rule = "step" -> IF x0.t = "absent" THEN (LET y == At(tree, <<FO, "omega", "tolerance">>) IN
                                IF y.t = "absent" THEN a[3] ELSE IF y.t = "odd" \/ IsB(y) THEN Free ELSE y) ELSE x
      [] rule = "alg" -> IF x.t # "s" THEN Free ELSE IF x.v \in Algs THEN x ELSE IF x.v = "\"DBSCAN\"" THEN a[3] ELSE Err
      [] rule = "mp" -> IF x.t = "s" THEN (IF x.v = "\"all\"" THEN I(cpus) ELSE IF x.v = "\"half\"" THEN I(Clamp(1, cpus \div 2, cpus))
                                           ELSE IF cpus = 1 THEN Free ELSE I(cpus - 1))
                        ELSE IF x.t = "i" THEN I(IF x.i >= 0 THEN Clamp(1, x.i, cpus) ELSE Clamp(1, cpus + x.i, cpus))
                        ELSE IF x.t = "o" \/ cpus = 1 THEN Free ELSE I(cpus - 1)
AttrOk(tree, o, cpus) ==
    LET w == Value(tree, o.name, cpus) IN
    \/ w.t = "any"
    \/ w.t = "err" /\ o.got.t = "err"
    \/ w.t # "err" /\ o.got.t # "err" /\ (IF Numeric(w) THEN Numeric(o.got) /\ o.got.v = w.v ELSE o.got.t = w.t /\ o.got.v = w.v)

\* reflection filters of a section: each key, with the old name of the smallest
\* structure factor as fall-back
FilterKeys == <<"dmin", "dmax", "tthmin", "tthmax", "sfacmin", "sfacmax", "pintmin", "pintmax">>
Leaf(x) == IF x.t \in {"absent"} THEN Nothing ELSE x
FilterWant(tree, sec) ==
    LET g(k) == At(tree, <<sec, k>>) IN
    [k \in 1..8 |-> IF FilterKeys[k] = "sfacmin" /\ g("sfacmin").t = "absent" THEN Leaf(g("min_sfac_ratio")) ELSE Leaf(g(FilterKeys[k]))]
FiltersOk(tree, sec, o) ==
    LET w == FilterWant(tree, sec) r == At(tree, <<sec, "reset_exclusions">>) IN
    \/ \E k \in 1..8 : w[k].t = "odd"
    \/ /\ \A k \in 1..8 : Eq(w[k], o.f[k])
       /\ Eq(IF r.t = "absent" THEN B(TRUE) ELSE r, o.reset)

\* output files; norm maps texts to the form used in file names
FilesWant(tree, norm) ==
    LET nm == LET x == At(tree, <<"analysis_name">>) IN IF x.t = "absent" THEN "analysis" ELSE norm.raw[x.v]
        ac == norm.dash[At(tree, <<"material", "active">>).v]
        id == norm.dash[IF At(tree, <<"analysis_name">>).t = "absent" THEN "\"analysis\"" ELSE At(tree, <<"analysis_name">>).v] \o "_" \o ac
        new == At(tree, <<"new_file_placement">>).v = "true"
        mf == At(tree, <<FO, "orientation_maps", "file">>)
        dir == nm \o "/"
    IN [id |-> id,
        log |-> IF new THEN dir \o "find-orientations-" \o ac \o ".log" ELSE "find-orientations_" \o id \o ".log",
        acc |-> IF new THEN dir \o "accepted-orientations-" \o ac \o ".dat" ELSE "accepted_orientations_" \o id \o ".dat",
        maps |-> IF mf.t = "s" THEN norm.raw[mf.v] ELSE IF new THEN dir \o "eta-ome-maps-" \o ac \o ".npz" ELSE id \o "_eta-ome_maps.npz",
        scored |-> IF new THEN dir \o "scored-orientations-" \o ac \o ".npz" ELSE "scored_orientations_" \o id,
        grains |-> dir \o "grains.out", fitlog |-> dir \o "fit-grains.log"]
FilesOk(tree, norm, o) ==
    LET a == At(tree, <<"material", "active">>) n == At(tree, <<"analysis_name">>) mf == At(tree, <<FO, "orientation_maps", "file">>)
        nf == At(tree, <<"new_file_placement">>) IN
    IF a.t # "s" \/ n.t \notin {"s", "absent"} \/ mf.t \notin {"s", "n", "absent"} \/ nf.t \notin {"o", "absent"} THEN TRUE
    ELSE o.k = "ok" /\ o.f = FilesWant(tree, norm)

XBegin(h) == <<>>
XJudge(st, e) ==
    LET s == Do(st, e) o == e.obs IN
    IF o.k = "err" /\ e.op # "get" /\ ~(e.op \in {"set", "setprop"} /\ ~CanSet(st[e.n].tree, e.p)) THEN [st |-> s, bad |-> {"refused"}, want |-> "no error"]
    ELSE LET bad == (IF Len(o.trees) = Len(s) /\ \A n \in 1..Len(s) : Eq(o.trees[n], s[n].tree) THEN {} ELSE {"contents"})
               \cup (IF Len(o.dirty) # Len(s) \/ \A n \in 1..Len(s) : o.dirty[n] = s[n].dirty THEN {} ELSE {"changed-flag"})
               \cup (IF e.op # "get" THEN {}
                     ELSE LET x == At(s[e.n].tree, e.p) IN
                          IF x.t = "odd" THEN (IF ~e.hasd /\ o.k # "err" THEN {"lookup"} ELSE {})
                          ELSE IF x.t = "absent" THEN (IF e.hasd THEN (IF o.k = "ok" /\ Eq(o.v, e.d) THEN {} ELSE {"default"})
                                                       ELSE IF o.k = "err" THEN {} ELSE {"missing"})
                          ELSE IF o.k = "ok" /\ Eq(o.v, x) THEN {} ELSE {"lookup"})
               \cup (IF e.op = "set" /\ CanSet(st[e.n].tree, e.p) /\ ~(o.back.t = e.v.t /\ Eq(o.back, e.v)) THEN {"read-back"} ELSE {})
               \cup (IF e.op = "set" /\ ~CanSet(st[e.n].tree, e.p) /\ o.k # "err" THEN {"read-back"} ELSE {})
               \cup UNION {IF AttrOk(s[e.n].tree, o.attrs[k], e.cpus) THEN {} ELSE {"attr-" \o o.attrs[k].name} :
                              k \in (IF e.op = "attrs" THEN 1..Len(o.attrs) ELSE {})}
               \cup (IF e.op # "attrs" \/ FiltersOk(s[e.n].tree, "fit_grains", o.ffg) THEN {} ELSE {"filters-fit-grains"})
               \cup (IF e.op # "attrs" \/ FiltersOk(s[e.n].tree, "material", o.fmat) THEN {} ELSE {"filters-material"})
               \cup (IF e.op # "attrs" \/ FilesOk(s[e.n].tree, e.norm, o.files) THEN {} ELSE {"files"})
         IN [st |-> s, bad |-> bad,
             want |-> [trees |-> [n \in 1..Len(s) |-> s[n].tree],
                       attrs |-> IF e.op = "attrs" THEN [k \in 1..Len(o.attrs) |-> Value(s[e.n].tree, o.attrs[k].name, e.cpus)] ELSE <<>>]]

----------------------------------------------------------------------------
\* Exploration: two documents over a small universe of trees, then path accesses
Leaves == {Nothing, I(3), [t |-> "s", v |-> "\"x\""]}
Blocks1 == {[t |-> "b", m |-> m] : m \in UNION {[K -> Leaves] : K \in SUBSET {"a", "b"}}}
Sub == Leaves \cup {Empty, [t |-> "b", m |-> [a |-> I(5)]], [t |-> "b", m |-> [b |-> Nothing]]}
Docs == {[t |-> "b", m |-> m] : m \in UNION {[K -> Sub] : K \in {{"a"}, {"a", "b"}}}}
MCStart == {<<d>> : d \in Docs} \cup {<<d1, d2>> : d1 \in {[t |-> "b", m |-> [a |-> x]] : x \in Sub}, d2 \in Docs}
            \cup {<<[t |-> "b", m |-> [a |-> x]], [t |-> "b", m |-> [a |-> y]], [t |-> "b", m |-> [a |-> z]]>> : x \in Sub, y \in Sub, z \in Sub}
Cfgs(s) == IF s # <<>> /\ "t" \in DOMAIN s[1] THEN Open(s) ELSE s
Paths == {<<"a">>, <<"a", "b">>, <<"c", "a">>}
MCOps(s) == {[op |-> "set", n |-> n, p |-> p, v |-> v] : n \in 1..Len(s), p \in Paths, v \in {I(7), Nothing}}
            \cup {[op |-> "get", n |-> n, p |-> p, hasd |-> d, d |-> I(9)] : n \in {Len(s)}, p \in {<<"a", "b">>}, d \in BOOLEAN}
            \cup {[op |-> "reopen"], [op |-> "redump", n |-> Len(s)]}
MCApply(s, e) == Do(Cfgs(s), e)
Idem(x) == Eq(Merge(x, x), x) /\ Eq(Merge(x, Empty), x) /\ Eq(Merge(Empty, x), x)
MCSafe(s) == LET c == Cfgs(s) IN
    /\ \A n \in 1..Len(c) : Idem(c[n].tree)
    \* nothing of an earlier document is lost, only overridden
    /\ \A n \in 1..(Len(c) - 1) : ("t" \in DOMAIN s[1]) => Keys(c[n].tree) \subseteq Keys(c[n + 1].tree)
    /\ (Len(s) = 3 /\ "t" \in DOMAIN s[1]) => Eq(Merge(Merge(s[1], s[2]), s[3]), c[3].tree)
MCSafeStep(s, e) ==
    LET c == Cfgs(s) d == Do(c, e) IN
    /\ (e.op = "set" /\ CanSet(c[e.n].tree, e.p)) =>
         /\ Eq(At(d[e.n].tree, e.p), e.v)
         /\ \A q \in Paths : (Len(q) >= Len(e.p) /\ SubSeq(q, 1, IF Len(q) >= Len(e.p) THEN Len(e.p) ELSE 0) # e.p) => At(d[e.n].tree, q) = At(c[e.n].tree, q)
         /\ \A n \in 1..Len(c) : n # e.n => d[n] = c[n]
    /\ (e.op = "redump") => Eq(d[1].tree, c[e.n].tree)
    /\ (e.op \in {"reopen", "redump"}) => \A n \in 1..Len(d) : ~d[n].dirty
=============================================================================
