------------------------------ MODULE ImgStore ------------------------------
(***************************************************************************)
(* C02.  Stores of image series.  State: a map from file name to what a     *)
(* reader of that file must see.  Metadata are carried as sequences of       *)
(* <<path, canonical value>>; nested paths contain "/".                      *)
(* The second part models the multi-threaded frame-cache writer, one action *)
(* per critical section, and is explored over all interleavings.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* frames are flat row-major sequences; thr2 is twice the threshold
Thresh(fr, thr2) == [k \in 1..Len(fr) |-> IF 2 * fr[k] > thr2 THEN fr[k] ELSE 0]

\* metadata entries are [p |-> path, n |-> nested?, v |-> value]
Flat(m) == SelectSeq(m, LAMBDA x : ~x.n)

Stored(e) ==
    CASE e.fmt = "hdf5" -> [r |-> e.r, c |-> e.c, frames |-> e.frames, meta |-> Flat(e.meta)]
      [] e.fmt = "npz" -> [r |-> e.r, c |-> e.c, meta |-> Flat(e.meta),
                           frames |-> [i \in 1..Len(e.frames) |-> Thresh(e.frames[i], e.thr2)]]
      [] e.fmt = "fch5" -> [r |-> e.r, c |-> e.c, meta |-> e.meta,
                            frames |-> [i \in 1..Len(e.frames) |-> Thresh(e.frames[i], e.thr2)]]

\* image files: per file drop the empty frames and cap, then concatenate and cap
UseFile(f, empty, maxf) ==
    LET n == Min2(IF maxf = 0 THEN Len(f) ELSE maxf, Len(f) - empty)
    IN SubSeq(f, empty + 1, empty + n)
RECURSIVE Concat(_, _, _)
Concat(fs, empty, maxf) ==
    IF fs = <<>> THEN <<>> ELSE UseFile(Head(fs), empty, maxf) \o Concat(Tail(fs), empty, maxf)
LayoutOk(e) == \A i \in 1..Len(e.files) : Len(e.files[i]) > e.empty
LayoutFrames(e) ==
    LET all == Concat(e.files, e.empty, e.maxf)
    IN IF e.maxt > 0 THEN SubSeq(all, 1, Min2(Len(all), e.maxt)) ELSE all

InR(i, n) == i >= -n /\ i < n
Nth(f, i) == f.frames[(IF i < 0 THEN i + Len(f.frames) ELSE i) + 1]

SliceLen(a, b, n) == Max2(0, Min2(b, n) - Min2(a, n))
Region(f, i, a, b, p, q) ==
    LET im == Nth(f, i)
        rr == SliceLen(a, b, f.r) cc == SliceLen(p, q, f.c)
    IN [shape |-> <<rr, cc>>,
        data |-> [k \in 1..(rr * cc) |-> im[(a + (k - 1) \div cc) * f.c + p + ((k - 1) % cc) + 1]]]

XBegin(h) == [files |-> [x \in {} |-> 0]]
Put(s, name, f) == [s EXCEPT !.files = [x \in DOMAIN s.files \cup {name} |-> IF x = name THEN f ELSE s.files[x]]]
None == [k |-> "err"]

Expect(s, e) ==
    LET f == s.files[e.name] IN
    CASE e.op = "write" -> [k |-> "ok", meta |-> e.meta, frames |-> e.frames]
      [] e.op = "layout" -> [k |-> "any"]
      [] e.op = "open" -> IF f.bad THEN None
                          ELSE [k |-> "ok", n |-> Len(f.f.frames), shape |-> <<f.f.r, f.f.c>>,
                                meta |-> f.f.meta, frames |-> f.f.frames]
      [] e.op = "get" -> IF InR(e.i, Len(f.f.frames)) THEN [k |-> "ok", shape |-> <<f.f.r, f.f.c>>, data |-> Nth(f.f, e.i)]
                         ELSE None
      [] e.op = "region" -> [k |-> "ok"] @@ Region(f.f, e.i, e.a, e.b, e.p, e.q)
      [] e.op = "pix" -> [k |-> "ok", shape |-> <<Len(e.rows)>>,
                          data |-> [k \in 1..Len(e.rows) |-> Nth(f.f, e.i)[e.rows[k] * f.f.c + e.cols[k] + 1]]]

Fields(w) == DOMAIN w
Agree(o, w) == CASE w.k = "any" -> {}
                 [] w.k = "err" -> IF o.k = "err" THEN {} ELSE {"accepted"}
                 [] w.k = "ok" -> IF o.k # "ok" THEN {"failed"}
                                  ELSE {x \in Fields(w) : o[x] # w[x]}

XJudge(s, e) ==
    LET w == Expect(s, e)
        b == Agree(e.obs, w)
        s2 == CASE e.op = "write" -> Put(s, e.name, [bad |-> FALSE, f |-> Stored(e)])
                [] e.op = "layout" -> Put(s, e.name, [bad |-> ~LayoutOk(e),
                        f |-> IF LayoutOk(e) THEN [r |-> e.r, c |-> e.c, meta |-> e.meta, frames |-> LayoutFrames(e)] ELSE [r |-> 0]])
                [] OTHER -> s
    IN [st |-> s2, bad |-> {e.op \o "-" \o x : x \in b}, want |-> w]

----------------------------------------------------------------------------
\* Exploration: the threaded sparse writer.  Threads take frames in order,
\* extract into their own buffer, reserve a range of the data set under the
\* lock, write it and record the range for the frame.
Threads == 1..3
\* number and values of the pixels kept in each frame
Kept == <<<<11, 12>>, <<>>, <<31>>, <<41, 42>>>>
NFr == Len(Kept)
MCStart == {[next |-> 1, th |-> [t \in Threads |-> [pc |-> "idle", fr |-> 0, buf |-> <<>>, s |-> 0]],
             fpos |-> 0, data |-> [x \in {} |-> 0], ids |-> [x \in {} |-> <<0, 0>>]]}
MCOps(s) ==
    {[op |-> "take", t |-> t] : t \in {t \in Threads : s.th[t].pc = "idle" /\ s.next <= NFr}}
    \cup {[op |-> "extract", t |-> t] : t \in {t \in Threads : s.th[t].pc = "taken"}}
    \cup {[op |-> "reserve", t |-> t] : t \in {t \in Threads : s.th[t].pc = "extracted"}}
    \cup {[op |-> "store", t |-> t] : t \in {t \in Threads : s.th[t].pc = "reserved"}}
MCApply(s, o) ==
    LET t == o.t x == s.th[t] IN
    CASE o.op = "take" -> [s EXCEPT !.th[t] = [x EXCEPT !.pc = "taken", !.fr = s.next], !.next = @ + 1]
      [] o.op = "extract" -> [s EXCEPT !.th[t] = [x EXCEPT !.pc = "extracted", !.buf = Kept[x.fr]]]
      [] o.op = "reserve" -> [s EXCEPT !.th[t] = [x EXCEPT !.pc = "reserved", !.s = s.fpos], !.fpos = @ + Len(x.buf)]
      [] o.op = "store" ->
            [s EXCEPT !.th[t] = [x EXCEPT !.pc = "idle"],
                      !.data = [p \in DOMAIN @ \cup {x.s + k - 1 : k \in 1..Len(x.buf)} |->
                                  IF p >= x.s /\ p < x.s + Len(x.buf) THEN x.buf[p - x.s + 1] ELSE @[p]],
                      !.ids = [f \in DOMAIN @ \cup {x.fr} |-> IF f = x.fr THEN <<x.s, x.s + Len(x.buf)>> ELSE @[f]]]
MCSafe(s) ==
    \* ranges of different frames never overlap; a recorded frame reads back its own pixels
    /\ \A f \in DOMAIN s.ids : /\ s.ids[f][2] - s.ids[f][1] = Len(Kept[f])
                               /\ \A k \in 1..Len(Kept[f]) : s.data[s.ids[f][1] + k - 1] = Kept[f][k]
    /\ \A f, g \in DOMAIN s.ids : f # g => (s.ids[f][2] <= s.ids[g][1] \/ s.ids[g][2] <= s.ids[f][1])
    /\ DOMAIN s.ids = 1..NFr => s.fpos = Cardinality(DOMAIN s.data)
MCSafeStep(s, o) == TRUE
=============================================================================
