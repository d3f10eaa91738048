----------------------------- MODULE CodecsTrace -----------------------------
EXTENDS Trace, Codecs
Start(init) == 0
Same(d, e, v) == IF IsBad(d) THEN e.o = "err" ELSE e.o = "ok" /\ v
Good(s, e) ==
  CASE e.op = "venc" -> e.o = "ok" /\ e.b = EncList(e.v)
    [] e.op = "vdec" -> LET d == DecList(e.b) IN IF IsBad(d) THEN e.o = "err" ELSE e.o = "ok" /\ e.v = d.v
    [] e.op = "denc" -> e.o = "ok" /\ e.b = EncFiles(e.f)
    [] e.op = "ddec" -> LET d == DecFiles(e.b, e.ver) IN
                        IF IsBad(d) THEN e.o = "err"
                        ELSE \/ e.o = "ok" /\ e.f = d.v /\ e.pos = Len(e.b) - Len(d.rest)
                             \/ e.o = "err" /\ e.ver < 1     \* an unknown version may be refused outright
    [] e.op = "bnew" -> IF GoodBlob([off |-> e.off, len |-> e.len])
                        THEN e.o = "ok" /\ e.u2 = e.u /\ e.off2 = e.off /\ e.len2 = e.len
                        ELSE e.o = "err"
    [] e.op = "benc" -> e.o = "ok" /\ e.b = EncBlob([u |-> e.u, off |-> e.off, len |-> e.len])
    [] e.op = "bdec" -> LET d == DecBlob(e.b) IN
                        IF IsBad(d) THEN e.o = "err"
                        ELSE \/ e.o = "ok" /\ [u |-> e.u, off |-> e.off, len |-> e.len] = d.v
                             \/ e.o = "err" /\ d.rest # <<>>  \* bytes after the end may be refused
    [] OTHER -> FALSE
Step(s, e) == s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
