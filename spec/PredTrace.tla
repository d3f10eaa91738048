----------------------------- MODULE PredTrace -----------------------------
\* Predicates evaluated on single rows, on batches, on statistics, and in parts.
EXTENDS Trace, Reading
Start(in) == [j \in DOMAIN in.rows |-> [f \in DOMAIN in.rows[j] |-> in.rows[j][f]]]
Truth(s, p) == [j \in DOMAIN s |-> Holds(s[j], p)]
Good(s, e) ==
  CASE e.op \in {"rows", "batch"} -> e.o = "ok" /\ e.got = Truth(s, e.pred)
    \* statistics of some of the rows: skipping is right only if none of them fits
    [] e.op = "stats" -> e.o = "ok" /\ ((\E j \in Range(e.of) : Holds(s[j], e.pred)) => e.got)
    \* the part of a condition that speaks of some fields only lets pass what the whole lets pass
    [] e.op = "part" -> e.o = "ok" /\ \A j \in DOMAIN s : Holds(s[j], e.pred) => e.got[j]
    [] OTHER -> FALSE
Step(s, e) == s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
