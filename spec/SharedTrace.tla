---------------------------- MODULE SharedTrace ----------------------------
EXTENDS Trace, Shared
Start(init) == [kind |-> init.kind, C |-> {[o |-> init.obj, th |-> [t \in 1..init.threads |-> None]]}]
Step(s, e) ==
  CASE e.op = "inv" -> [s EXCEPT !.C = Invoke(@, e.t, e.p)]
    [] e.op = "ret" -> [s EXCEPT !.C = Return(s.kind, @, e.t, e.r)]
    [] e.op = "final" -> [s EXCEPT !.C = {c \in Closure(s.kind, @) : c.o = e.obj}]
    [] OTHER -> s
Good(s, e) == e.o = "ok" /\ e.op \in {"inv", "ret", "final"} /\ Step(s, e).C # {}
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
