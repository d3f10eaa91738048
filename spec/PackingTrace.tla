----------------------------- MODULE PackingTrace -----------------------------
EXTENDS Trace, Packing
Start(init) == 0
Good(s, e) == e.o = "ok" /\ Packed(e.w, e.target, e.bins)
Step(s, e) == s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
