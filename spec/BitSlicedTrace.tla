--------------------------- MODULE BitSlicedTrace ---------------------------
EXTENDS Trace, BitSliced
Start(init) == [nonneg |-> init.nonneg, lo |-> 0, hi |-> 0, col |-> <<>>]

Accepts(s, e) == e.v \in s.lo..s.hi /\ e.row \notin DOMAIN s.col
Good(s, e) ==
  CASE e.op = "create" -> e.o = IF e.lo >= s.nonneg /\ e.lo <= e.hi THEN "ok" ELSE "err"
    [] e.op = "append" -> e.o = IF Accepts(s, e) THEN "ok" ELSE "err"
    [] e.op = "notempty" -> e.o = "ok" /\ e.r = (DOMAIN s.col # {})
    [] e.op = "nn" -> e.o = "ok" /\ Range(e.rows) = DOMAIN s.col /\ Len(e.rows) = Cardinality(DOMAIN s.col)
    [] e.op = "saveload" -> e.o = "ok" /\ e.same /\ e.rest = 0
    [] e.op = "trunc" -> e.o = "err"
    [] e.op \in Ops -> /\ e.o = "ok"
                       /\ LET a == Answer(s.col, e.op, e.v) IN Range(e.rows) = a /\ Len(e.rows) = Cardinality(a)
    [] OTHER -> FALSE
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Step(s, e) ==
  CASE e.op = "create" /\ e.o = "ok" -> [s EXCEPT !.lo = e.lo, !.hi = e.hi]
    [] e.op = "append" /\ e.o = "ok" -> [s EXCEPT !.col = Put(@, e.row, e.v)]
    [] OTHER -> s

Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
