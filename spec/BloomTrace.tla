----------------------------- MODULE BloomTrace -----------------------------
EXTENDS Trace, Bloom
Start(init) == [nbits |-> 0, k |-> 0, bits |-> {}]
Good(s, e) ==
  /\ e.o = "ok"
  /\ CASE e.op = "new" -> e.nbits >= 8 /\ e.nbits % 8 = 0 /\ e.k >= 1 /\ e.kept = e.nbits
       [] e.op = "test" -> e.r = Maybe(s.bits, e.h, s.k, s.nbits)
       [] e.op = "bits" -> Range(e.b) = s.bits
       [] e.op = "reload" -> e.nbits = s.nbits /\ e.k = s.k /\ e.intact
       [] e.op = "add" -> TRUE
       [] OTHER -> FALSE
Step(s, e) ==
  CASE e.op = "new" -> [nbits |-> e.nbits, k |-> e.k, bits |-> {}]
    [] e.op \in {"add", "reload"} -> [s EXCEPT !.bits = @ \cup Positions(e.h, s.k, s.nbits)]
    [] OTHER -> s

Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
