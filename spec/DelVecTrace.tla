---------------------------- MODULE DelVecTrace ----------------------------
EXTENDS Trace, DelVec
Start(in) == {}
Sorted(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
Good(s, e) ==
  CASE e.op = "delete" -> IF e.big THEN e.o = "err" ELSE e.o = "ok"
    [] e.op = "checked" -> IF e.big THEN e.o = "err" ELSE e.o = "ok" /\ e.new = (e.p \notin s)
    [] e.op = "has" -> IF e.big THEN e.o = "err" ELSE e.o = "ok" /\ e.is = (e.p \in s)
    [] e.op = "empty" -> e.o = "ok" /\ e.is = (s = {})
    [] e.op = "valid" -> e.o = "ok" /\ Elems(e.rows) = Valid(s, e.first, e.n)
    [] e.op = "flags" -> e.o = "ok"
    [] e.op = "saved" -> e.o = "ok" /\ Elems(e.now) = s /\ Sorted(e.now)
    [] e.op = "spoiled" -> e.o = "err"
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.op \in {"delete", "checked"} /\ ~e.big -> s \cup {e.p}
    [] e.op = "flags" -> FromFlags(e.flags)
    [] OTHER -> s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
