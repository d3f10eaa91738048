---------------------------- MODULE RangesTrace ----------------------------
EXTENDS Trace, Ranges

Start(init) == 0
Answer(e) ==
  CASE e.op = "merge" -> e.out = Merged(e.in, IF e.adj THEN 1 ELSE 0) /\ e.kept
    [] e.op = "and" -> e.out = Intersect(e.a, e.b)
    [] e.op = "excl" -> e.out = Minus(e.a, e.in)
    [] e.op = "pair" -> /\ e.has = Meets(e.a, e.b)
                        /\ e.x = IF Meets(e.a, e.b) THEN <<Cap(e.a, e.b)>> ELSE <<>>
                        /\ e.eq = (e.a = e.b)
                        /\ e.lt = (e.a[1] < e.b[1] \/ (e.a[1] = e.b[1] /\ e.a[2] < e.b[2]))
                        /\ e.gt = (e.b[1] < e.a[1] \/ (e.a[1] = e.b[1] /\ e.b[2] < e.a[2]))
                        /\ e.count = IF e.count = -1 THEN -1 ELSE e.a[2] - e.a[1] + 1
                        /\ e.text
    [] e.op = "group" -> e.out = Grouping(e.in)
    [] e.op = "same" -> e.r = (\A k \in DOMAIN e.in : e.in[k] = e.in[1])
    [] OTHER -> FALSE
Good(s, e) == IF e.op = "group" /\ e.fails THEN e.o = "err" ELSE e.o = "ok" /\ Answer(e)
Step(s, e) == s

Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
