---------------------------- MODULE LocalFsTrace ----------------------------
(* Operations of the local files and the local file system, as recorded,    *)
(* against the tree.                                                         *)
EXTENDS Trace, LocalFs

\* m: injection  hook = [pos, mode (0 error, 1 exception, 2 none)], n steps counted,
\* locked directory, unsure: the operation that failed half-way, the limit of the
\* sizes of files, broken: files of which a failure to write was reported
Start(init) == [fs |-> Fresh, hs |-> <<>>, pos |-> -1, mode |-> 2, n |-> 0, locked |-> <<>>, unsure |-> <<>>,
                limit |-> -1, broken |-> {}]

Below(s, p) == s.locked # <<>> /\ Under(s.locked, p)
Shut(s, p) == Blocked(s.fs, p) \/ Below(s, p)
Handles(s) == {k \in 1..Len(s.hs) : s.hs[k].open}
\* streams are numbered as they were asked for
Hd(s, e) == CHOOSE k \in 1..Len(s.hs) : s.hs[k].id = e.h
Known(s, e) == \E k \in 1..Len(s.hs) : s.hs[k].id = e.h
F(s, p) == s.fs.names[p]
\* more than the device takes
TooMuch(s, n) == s.limit >= 0 /\ n > s.limit
Whole(s, f) == f \notin s.broken /\ ~TooMuch(s, Len(s.fs.data[f].vis) + Len(s.fs.data[f].pend))
Lens(s, f) == Len(s.fs.data[f].vis)..(Len(s.fs.data[f].vis) + Len(s.fs.data[f].pend))
Cut(b, from, n) == IF from >= Len(b) THEN <<>> ELSE SubSeq(b, from + 1, Min2(Len(b), from + n))
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the bytes a reader may see of a file: all that were flushed, some that were not
Seen(s, f, from, n, b) == LET d == s.fs.data[f] IN
    /\ Len(b) <= n /\ IsPrefix(b, Cut(d.vis \o d.pend, from, n))
    /\ Len(b) >= Len(Cut(d.vis, from, n))

---------------------------------------------------------------------------
(* injected failures                                                        *)
Counted == {"exists", "isfile", "isdir", "list", "listfiles", "fdelete", "fmkdir", "fstatus", "flength", "mtime", "fopenr",
            "fopenw", "status", "listdir", "liststatus", "delete", "mkdirs", "rename", "writefile", "store", "readfile",
            "odd", "create", "close", "again", "tell", "flush", "wrong", "write", "read", "pread", "seek", "hlength", "try"}
Failing(s) == s.mode # 2
\* from the given step on, everything fails
MustFail(s, e) == Failing(s) /\ (e.c0 >= s.pos \/ e.c1 > s.pos)
\* operations of files that are one step
Partial == {"delete", "mkdirs", "rename", "writefile", "store", "create"}

Children1(s, p) == {q[Len(q)] : q \in Children(s.fs, p)}
NoDup(l) == Cardinality(Range(l)) = Len(l)
StatusOk(s, e, p) == /\ e.at = p /\ e.d = IsD(s.fs, p)
                     /\ IsF(s.fs, p) => e.len \in Lens(s, F(s, p))
H(s, e) == s.hs[Hd(s, e)]
\* what the operation would do without injection: may it succeed, with these results
Normal(s, e) == LET fs == s.fs  ok == e.o = "ok" IN
  CASE e.op = "exists" -> IF Shut(s, e.p) THEN ~ok ELSE ok /\ e.v = Is(fs, e.p)
    [] e.op \in {"isfile", "isdir"} -> IF Shut(s, e.p) \/ ~Is(fs, e.p) THEN ~ok
                                       ELSE ok /\ e.v = (IF e.op = "isfile" THEN IsF(fs, e.p) ELSE IsD(fs, e.p))
    [] e.op = "list" -> IF Shut(s, e.p) \/ ~IsD(fs, e.p) \/ (e.p = s.locked /\ s.locked # <<>>) THEN ~ok
                        ELSE ok /\ NoDup(e.l) /\ Range(e.l) = Children1(s, e.p)
    [] e.op = "listfiles" -> IF Shut(s, e.p) \/ ~IsD(fs, e.p) \/ (e.p = s.locked /\ s.locked # <<>>) THEN ~ok
                             ELSE ok /\ NoDup(e.l) /\ Range(e.l) = Children(fs, e.p)
    [] e.op = "fdelete" -> IF Shut(s, e.p) THEN ~ok ELSE ok = (~IsD(fs, e.p) \/ Children(fs, e.p) = {})
    [] e.op = "fmkdir" -> ok /\ e.v = (~Shut(s, e.p) /\ ~Is(fs, e.p) /\ IsD(fs, Parent(e.p)))
    [] e.op = "fstatus" -> IF Shut(s, e.p) \/ ~Is(fs, e.p) THEN ~ok ELSE ok /\ StatusOk(s, e, e.p)
    [] e.op = "flength" -> IF Shut(s, e.p) \/ ~Is(fs, e.p) THEN ~ok
                           ELSE ok /\ (IsF(fs, e.p) => e.len \in Lens(s, F(s, e.p)))
    [] e.op = "mtime" -> IF Shut(s, e.p) \/ ~Is(fs, e.p) THEN ~ok ELSE ok /\ e.sec = e.when
    [] e.op = "fopenr" -> ok = (~Shut(s, e.p) /\ IsF(fs, e.p))
    [] e.op = "fopenw" -> ok = (~Shut(s, e.p) /\ ~IsD(fs, e.p) /\ IsD(fs, Parent(e.p)))
    [] e.op = "status" -> IF Shut(s, e.p) \/ ~Is(fs, e.p) THEN ~ok ELSE ok /\ StatusOk(s, e, e.p)
    [] e.op = "listdir" -> IF Shut(s, e.p) \/ IsF(fs, e.p) \/ (e.p = s.locked /\ s.locked # <<>>) THEN ~ok
                           ELSE ok /\ NoDup(e.l) /\ {x.at : x \in Range(e.l)} = Children(fs, e.p)
                                   /\ \A x \in Range(e.l) : x.d = IsD(fs, x.at)
    [] e.op = "liststatus" -> IF Shut(s, e.p) \/ (e.p = s.locked /\ s.locked # <<>>) THEN ~ok
                              ELSE ok /\ NoDup(e.l)
                                   /\ {x.at : x \in Range(e.l)} = (IF IsF(fs, e.p) THEN {e.p} ELSE Children(fs, e.p))
                                   /\ \A x \in Range(e.l) : StatusOk(s, x, x.at)
    [] e.op = "delete" -> ok = (~Shut(s, e.p) /\ DeleteRes(fs, e.p, e.rec).ok)
    [] e.op = "mkdirs" -> ok = (~Below(s, e.p) /\ MkdirsRes(fs, e.p).ok)
    [] e.op = "rename" -> ok = (~Below(s, e.p) /\ ~Below(s, e.q) /\ RenameRes(fs, e.p, e.q, e.slash).ok)
    [] e.op = "writefile" -> ok = (~Below(s, e.p) /\ PutRes(fs, e.p, e.b, e.over).ok /\ ~TooMuch(s, Len(e.b))) /\ (ok => e.sync)
    [] e.op = "store" -> ok = (~Shut(s, e.p) /\ PutRes(fs, e.p, e.b, FALSE).ok /\ ~TooMuch(s, Len(e.b))) /\ (ok => e.sync)
    [] e.op = "readfile" -> IF Shut(s, e.p) \/ ~IsF(fs, e.p) THEN ~ok
                            ELSE ok /\ Seen(s, F(s, e.p), 0, 1000000, e.b)
    [] e.op = "odd" -> ~ok
    [] e.op = "create" -> ok = (~Below(s, e.p) /\ PutRes(fs, e.p, <<>>, e.over).ok)
    \* success is reported only of files that are complete
    [] e.op = "close" -> IF ~H(s, e).w \/ Whole(s, H(s, e).f) THEN ok ELSE ~ok \/ H(s, e).f \in s.broken
    [] e.op = "again" -> IF e.what = "close" THEN ok ELSE ~ok
    [] e.op = "tell" -> LET h == H(s, e) IN IF h.w /\ h.f \in s.broken THEN TRUE ELSE ok /\ (h.pos = -1 \/ e.v = h.pos)
    [] e.op = "flush" -> IF Whole(s, H(s, e).f) THEN ok /\ e.sync ELSE ~ok \/ H(s, e).f \in s.broken
    [] e.op = "wrong" -> ~ok
    [] e.op = "write" -> IF ok THEN e.n = Len(e.b)
                         ELSE H(s, e).f \in s.broken \/ TooMuch(s, Len(All(fs, H(s, e).f)) + Len(e.b))
    [] e.op = "read" -> LET h == H(s, e) IN
         IF h.dirty \/ h.pos = -1 THEN TRUE
         ELSE LET have == Len(Cut(s.fs.data[h.f].vis, h.pos, e.n)) IN
              IF e.stream /\ ~ok THEN have < e.n
              ELSE ok /\ e.n2 = Len(e.b) /\ Seen(s, h.f, h.pos, e.n, e.b) /\ e.rest /\ (e.stream => e.n2 = e.n)
    [] e.op = "pread" -> LET h == H(s, e)  have == Len(Cut(s.fs.data[h.f].vis, e.off, e.n)) IN
         IF e.stream /\ ~ok THEN have < e.n
         ELSE ok /\ e.n2 = Len(e.b) /\ Seen(s, h.f, e.off, e.n, e.b) /\ e.rest /\ (e.stream => e.n2 = e.n)
    [] e.op = "seek" -> LET h == H(s, e)
                            base == IF e.org = 0 THEN {0} ELSE IF e.org = 1 THEN {h.pos} ELSE Lens(s, h.f) IN
         IF e.org = 1 /\ h.pos = -1 THEN TRUE ELSE \E x \in base : ok = (x + e.off >= 0)
    [] e.op = "hlength" -> LET h == H(s, e) IN
         \* the length is that of the file now bearing the name
         (IsF(fs, h.p) /\ ~Shut(s, h.p) /\ F(s, h.p) = h.f) => (ok /\ e.len \in Lens(s, h.f))
    [] e.op = "try" -> ok
    [] OTHER -> FALSE

AsPath(x) == x
NodeSet(nodes) == {[p |-> nodes[k].p, d |-> nodes[k].d, b |-> nodes[k].b] : k \in DOMAIN nodes}
\* a dump agrees with the tree, up to bytes that were not flushed
Agrees(s, nodes) == LET N == NodeSet(nodes) IN
    /\ {x.p : x \in {y \in N : y.d}} = s.fs.dirs
    /\ {x.p : x \in {y \in N : ~y.d}} = Files(s.fs)
    /\ \A x \in N : ~x.d => Seen(s, F(s, x.p), 0, 1000000, x.b)
\* ... or with what an operation that failed half-way may leave behind
Half(s, nodes, e) == LET N == NodeSet(nodes)
                         ds == {x.p : x \in {y \in N : y.d}}  fl == {x.p : x \in {y \in N : ~y.d}}
                         Same(S) == \A x \in N : x.p \in S => Seen(s, F(s, x.p), 0, 1000000, x.b)
                         target == IF e.op = "rename" THEN e.q ELSE e.p
                         made == IF e.op = "mkdirs" THEN Ancestors(target) \cup {target} ELSE Ancestors(target) IN
    IF e.op = "delete" THEN
        /\ ds \subseteq s.fs.dirs /\ fl \subseteq Files(s.fs) /\ Same(fl)
        /\ \A q \in Nodes(s.fs) : (q = e.p \/ Under(e.p, q)) \/ q \in ds \cup fl
    ELSE
        /\ s.fs.dirs \subseteq ds /\ ds \subseteq s.fs.dirs \cup made
        /\ Files(s.fs) \subseteq fl
        /\ CASE e.op \in {"mkdirs", "rename"} -> fl = Files(s.fs) /\ Same(fl)
             [] e.op \in {"writefile", "create"} ->
                  /\ fl \subseteq Files(s.fs) \cup {e.p} /\ Same(fl \ {e.p})
                  /\ \A x \in N : x.p = e.p /\ ~x.d =>
                        \/ IsPrefix(x.b, IF e.op = "create" THEN <<>> ELSE e.b)
                        \/ IsF(s.fs, e.p) /\ Seen(s, F(s, e.p), 0, 1000000, x.b)
             [] OTHER ->  \* store: only a temporary file next to the target
                  /\ \A q \in fl \ Files(s.fs) : Failing(s) /\ Parent(q) = Parent(e.p) /\ q # e.p
                  /\ Cardinality(fl \ Files(s.fs)) <= 1
                  /\ Same(Files(s.fs))

OfOrder(e) == [k \in DOMAIN e.ops |-> [k |-> e.ops[k].k, p |-> e.ops[k].p, q |-> e.ops[k].q, b |-> e.ops[k].b,
                                      slash |-> FALSE, over |-> FALSE, ok |-> e.oks[k]]]
Good(s, e) ==
    IF e.o \in {"crash", "hang", "exc"} THEN FALSE
    ELSE IF e.op = "dump" THEN e.esc = 0 /\ IF s.unsure = <<>> THEN Agrees(s, e.nodes) ELSE Half(s, e.nodes, s.unsure[1])
    ELSE IF e.op = "reset" THEN e.o = "ok" /\ e.c1 = 0
    ELSE IF e.op = "clear" THEN e.o = "ok" /\ e.c1 = 0
    ELSE IF e.op \in {"lock", "unlock", "limit"} THEN e.o = "ok"
    ELSE IF e.op = "parent" THEN e.o = "ok" /\ e.at = Parent(e.p) /\ ~e.empty
    ELSE IF e.op = "sparse" THEN /\ e.o = "ok" /\ e.len = 2000000005 /\ e.slen = e.len /\ e.ilen = e.len /\ e.pos = 2000000002
                                 /\ e.b = <<1, 2, 3>> /\ e.b2 = e.b
    ELSE IF e.op = "race" THEN /\ e.o = "ok" /\ ~e.thrown /\ e.c0 = s.n
                               /\ InSomeOrder(s.fs, OfOrder(e), DOMAIN e.ops, NodeSet(e.nodes))
    ELSE /\ e.op \in Counted
         /\ e.c0 = s.n /\ e.c1 >= e.c0
         /\ e.op = "try" => e.c1 = e.c0 + 1
         /\ IF e.op = "again" THEN Normal(s, e) /\ ~e.thrown
            \* the bytes of a whole file are there before the file is closed
            ELSE IF e.op = "readfile" /\ e.o = "ok" /\ ~(Failing(s) /\ e.c0 >= s.pos) THEN Normal(s, e)
            ELSE IF MustFail(s, e) THEN /\ e.o # "ok" /\ (e.thrown => s.mode = 1)
                                        /\ e.op = "try" => e.thrown = (s.mode = 1)
            ELSE Normal(s, e) /\ ~e.thrown

---------------------------------------------------------------------------
(* the state after an event                                                  *)
Dirty(s, f) == [s EXCEPT !.hs = [k \in 1..Len(s.hs) |-> IF s.hs[k].f = f /\ ~s.hs[k].w THEN [s.hs[k] EXCEPT !.dirty = TRUE]
                                                      ELSE s.hs[k]]]
WithHandle(s, e, w) == [s EXCEPT !.hs = Append(@, [id |-> e.h, open |-> TRUE, w |-> w, f |-> F(s, e.p), p |-> e.p,
                                                  pos |-> 0, dirty |-> s.fs.data[F(s, e.p)].pend # <<>>])]
\* a file that is overwritten is changed under its readers
Overwritten(s, e) == IF IsF(s.fs, e.p) THEN Dirty(s, F(s, e.p)) ELSE s
Expose(d, b) == [vis |-> b, pend |-> SubSeq(d.vis \o d.pend, Len(b) + 1, Len(d.vis) + Len(d.pend))]
\* the tree a dump shows, with the files that were there before
Taken(s, nodes) ==
    LET N == NodeSet(nodes)
        ds == {x.p : x \in {y \in N : y.d}}  fl == {x.p : x \in {y \in N : ~y.d}}
        At(p) == (CHOOSE x \in N : x.p = p).b
        base == [s.fs EXCEPT !.dirs = ds, !.names = [q \in fl \cap Files(s.fs) |-> s.fs.names[q]],
                             !.data = [k \in 1..Len(s.fs.data) |->
                                 IF \E p \in fl \cap Files(s.fs) : s.fs.names[p] = k THEN
                                    LET p == CHOOSE p \in fl \cap Files(s.fs) : s.fs.names[p] = k IN
                                    IF IsPrefix(At(p), All(s.fs, k)) /\ Len(At(p)) >= Len(s.fs.data[k].vis)
                                    THEN Expose(s.fs.data[k], At(p)) ELSE [vis |-> At(p), pend |-> <<>>]
                                 ELSE s.fs.data[k]]]
        RECURSIVE Add(_, _)
        Add(fs, left) == IF left = {} THEN fs
                         ELSE LET p == CHOOSE p \in left : TRUE IN Add(WithFile(fs, p, At(p)), left \ {p})
    IN Add(base, fl \ Files(s.fs))
SetPos(s, e, x) == [s EXCEPT !.hs[Hd(s, e)].pos = x]

Effect(s, e) == LET fs == s.fs IN
  CASE e.op = "fdelete" -> IF Is(fs, e.p) THEN [s EXCEPT !.fs = Without(fs, {e.p})] ELSE s
    [] e.op = "fmkdir" -> IF e.v THEN [s EXCEPT !.fs = WithDirs(fs, e.p)] ELSE s
    [] e.op = "fopenr" -> WithHandle(s, e, FALSE)
    [] e.op = "fopenw" -> WithHandle([Overwritten(s, e) EXCEPT !.fs = PutRes(fs, e.p, <<>>, TRUE).s], e, TRUE)
    [] e.op = "create" -> WithHandle([Overwritten(s, e) EXCEPT !.fs = PutRes(fs, e.p, <<>>, e.over).s], e, TRUE)
    [] e.op = "delete" -> [s EXCEPT !.fs = DeleteRes(fs, e.p, e.rec).s]
    [] e.op = "mkdirs" -> [s EXCEPT !.fs = MkdirsRes(fs, e.p).s]
    [] e.op = "rename" -> [s EXCEPT !.fs = RenameRes(fs, e.p, e.q, e.slash).s]
    [] e.op = "writefile" -> [Overwritten(s, e) EXCEPT !.fs = PutRes(fs, e.p, e.b, e.over).s]
    [] e.op = "store" -> [s EXCEPT !.fs = PutRes(fs, e.p, e.b, FALSE).s]
    [] e.op = "close" -> LET h == H(s, e) IN
         LET t == [s EXCEPT !.hs[Hd(s, e)].open = FALSE] IN
         IF h.w /\ Whole(s, h.f) THEN [Dirty(t, h.f) EXCEPT !.fs.data[h.f] = [vis |-> All(fs, h.f), pend |-> <<>>]] ELSE t
    [] e.op = "flush" -> LET h == H(s, e) IN IF ~Whole(s, h.f) THEN Dirty(s, h.f) ELSE [Dirty(s, h.f) EXCEPT !.fs.data[h.f] = [vis |-> All(fs, h.f), pend |-> <<>>]]
    [] e.op = "write" -> LET h == H(s, e) IN
         SetPos([Dirty(s, h.f) EXCEPT !.fs.data[h.f].pend = @ \o e.b], e, h.pos + Len(e.b))
    [] e.op = "tell" -> SetPos(s, e, e.v)
    [] e.op = "read" -> LET h == H(s, e) IN IF h.pos = -1 THEN s ELSE SetPos(s, e, h.pos + e.n2)
    [] e.op = "seek" -> LET h == H(s, e) IN
         SetPos(s, e, IF e.org = 0 THEN e.off
                      ELSE IF e.org = 1 THEN (IF h.pos = -1 THEN -1 ELSE h.pos + e.off)
                      ELSE IF Cardinality(Lens(s, h.f)) = 1 THEN Len(fs.data[h.f].vis) + e.off ELSE -1)
    [] OTHER -> s
\* an operation that failed: positions after short reads are open
Failed(s, e) ==
  IF MustFail(s, e) THEN
     IF e.op \in Partial THEN [(IF e.op \in {"writefile", "create"} THEN Overwritten(s, e) ELSE s) EXCEPT !.unsure = <<e>>]
     ELSE IF e.op = "flush" THEN Dirty(s, H(s, e).f)
     ELSE s
  ELSE IF e.op \in {"writefile", "store"} /\ TooMuch(s, Len(e.b)) THEN
     [(IF e.op = "writefile" THEN Overwritten(s, e) ELSE s) EXCEPT !.unsure = <<e>>]
  ELSE IF e.op = "write" THEN [Dirty(s, H(s, e).f) EXCEPT !.broken = @ \cup {H(s, e).f},
                                                         !.fs.data[H(s, e).f].pend = @ \o e.b]
  ELSE IF e.op \in {"flush", "close"} THEN [Dirty(s, H(s, e).f) EXCEPT !.broken = @ \cup {H(s, e).f}]
  ELSE IF e.op = "read" THEN SetPos(s, e, -1)
  ELSE IF e.op = "rename" /\ Under(e.p, e.q) THEN [s EXCEPT !.unsure = <<e>>]
  ELSE s
Step(s, e) ==
    IF e.op = "dump" THEN [s EXCEPT !.fs = Taken(s, e.nodes), !.unsure = <<>>]
    ELSE IF e.op = "reset" THEN [s EXCEPT !.pos = e.pos, !.mode = e.mode, !.n = 0]
    ELSE IF e.op = "clear" THEN [s EXCEPT !.pos = -1, !.mode = 2, !.n = 0]
    ELSE IF e.op = "limit" THEN [s EXCEPT !.limit = e.n]
    ELSE IF e.op = "lock" THEN [s EXCEPT !.locked = e.p]
    ELSE IF e.op = "unlock" THEN [s EXCEPT !.locked = <<>>]
    ELSE IF e.op \in {"parent", "sparse"} THEN s
    ELSE IF e.op = "race" THEN [s EXCEPT !.fs = Taken(s, e.nodes), !.n = e.c1]
    ELSE LET t == IF e.op = "wrong" /\ H(s, e).w /\ s.limit >= 0 THEN [s EXCEPT !.broken = @ \cup {H(s, e).f}]
                  ELSE IF e.op \in {"again", "wrong", "try", "odd"} THEN s
                  ELSE IF e.o = "ok" THEN Effect(s, e) ELSE Failed(s, e) IN [t EXCEPT !.n = e.c1]

Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
