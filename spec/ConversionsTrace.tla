--------------------------- MODULE ConversionsTrace ---------------------------
EXTENDS Trace, Conversions
Start(init) == [min |-> init.min, max |-> init.max, nulls |-> init.nulls]

InTable(t, code) == \E k \in DOMAIN t : t[k][1] = code
Row(t, code) == t[CHOOSE k \in DOMAIN t : t[k][1] = code]

Good(s, e) ==
  CASE e.op = "compare" ->
         /\ e.o = "ok" /\ e.lt = TsLess(e.x, e.y) /\ e.gt = TsLess(e.y, e.x) /\ e.eq = (e.x = e.y)
         /\ e.back = e.x                                     \* getters
         /\ e.milli = [ms |-> e.x.ms, nano |-> 0]
    [] e.op = "units" ->
         /\ e.o = "ok"
         /\ e.us = <<e.day, e.ms \div 1000, (e.ms % 1000) * 1000 + e.nano \div 1000>>
         /\ e.ns = IF e.small THEN <<e.day, e.ms \div 1000, (e.ms % 1000) * 1000000 + e.nano>> ELSE <<>>
    [] e.op = "text" -> e.o = "ok" /\ e.q = TimeText(e.day, e.ms, e.nano)
    [] e.op = "compact" -> e.o = "ok" /\ e.v = (e.p <= 3)
    [] e.op = "row_kind" ->
         IF InTable(RowKinds, e.code)
         THEN e.o = "ok" /\ <<e.back, e.short, e.name, e.retract>> = Row(RowKinds, e.code) /\ e.add = ~e.retract /\ e.same
         ELSE e.o = "err"
    [] e.op = "row_kind_text" ->
         IF \E k \in DOMAIN RowKinds : RowKinds[k][2] = e.t
         THEN e.o = "ok" /\ Row(RowKinds, e.code)[2] = e.t
         ELSE e.o = "err"
    [] e.op = "kind_pair" -> e.o = "ok" /\ e.eq = (e.x = e.y)
    [] e.op = "file_kind" -> IF InTable(FileKinds, e.code) THEN e.o = "ok" /\ e.back = e.code /\ e.named = Row(FileKinds, e.code)[2] ELSE e.o = "err"
    [] e.op = "file_source" -> IF InTable(FileSources, e.code) THEN e.o = "ok" /\ e.back = e.code /\ e.t = Row(FileSources, e.code)[2] /\ e.named = e.t ELSE e.o = "err"
    [] e.op = "startup" -> IF e.t \in StartupModes THEN e.o = "ok" /\ e.back = e.t /\ e.named = e.t ELSE e.o = "err"
    [] e.op = "startup_pair" -> e.o = "ok" /\ e.eq = (e.x = e.y)
    [] e.op = "identifier" -> e.o = "ok" /\ e.db = e.x[1] /\ e.table = e.x[2] /\ e.eq = (e.x = e.y)
    [] e.op = "collect" -> LET t == Collect(s, e.v) IN e.o = "ok" /\ e.min = t.min /\ e.max = t.max /\ e.nulls = t.nulls
    [] e.op = "stats" -> e.o = "ok" /\ e.min = s.min /\ e.max = s.max /\ e.nulls = s.nulls /\ e.kind = e.asked
    [] OTHER -> FALSE
Step(s, e) == IF e.op = "collect" THEN Collect(s, e.v) ELSE s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
