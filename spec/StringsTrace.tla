---------------------------- MODULE StringsTrace ----------------------------
EXTENDS Trace, Strings, Murmur
Start(init) == <<init.a, init.b>>
Good(s, e) ==
  LET q == s[e.x] y == s[e.y] IN
  e.o = "ok" /\
  CASE e.op = "text" -> /\ e.q = q /\ e.copy = q /\ e.bytes = q /\ e.h = Hash(q) /\ e.n = Len(q) /\ e.chars = NumChars(q)
    [] e.op = "cmp" -> /\ e.c = CompareBytes(q, y) /\ e.cm = e.c /\ e.eq = (q = y) /\ e.lt = (e.c < 0)
    [] e.op = "sub" -> e.q = Substring(q, e.b, e.e)
    [] e.op = "index" -> e.v = IndexOf(q, y, e.from)
    [] e.op = "tests" -> /\ e.contains = Contains(q, y) /\ e.starts = StartsWith(q, y) /\ e.ends = EndsWith(q, y)
    [] e.op = "match" -> e.v = MatchAt(q, y, e.p)
    [] e.op = "case" -> e.up = Upper(q) /\ e.low = Lower(q)
    [] e.op = "at" -> e.v = q[e.k + 1]
    [] e.op = "cut" -> e.q = Get(q, e.b, e.n)
    [] e.op = "blank" -> e.q = [k \in 1..e.n |-> 32]
    [] OTHER -> FALSE
Step(s, e) == s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
