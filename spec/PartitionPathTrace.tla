-------------------------- MODULE PartitionPathTrace --------------------------
EXTENDS Trace, PartitionPath
Start(init) == 0
Good(s, e) ==
  CASE e.op = "escape" -> IF e.t = <<>> THEN e.o = "err" ELSE e.o = "ok" /\ e.q = Escape(e.t)
    [] e.op = "path" -> IF Valid(e.p) THEN e.o = "ok" /\ e.q = Path(e.p) /\ Parse(e.q) = e.p ELSE e.o = "err"
    [] e.op = "levels" -> IF Valid(e.p) THEN e.o = "ok" /\ e.qs = Prefixes(e.p) ELSE e.o = "err"
    [] OTHER -> FALSE
Step(s, e) == s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
