--------------------------- MODULE ExecutorTrace ---------------------------
EXTENDS Trace, Executor
\* asked: values promised to callers, indexed by request
Start(init) == [x |-> Fresh(init.n), asked |-> init.asked]
Good(s, e) ==
  e.o = "ok" /\
  CASE e.op = "add" -> CanCall(s.x, e.t)
    [] e.op = "added" -> e.t \in s.x.called
    [] e.op = "start" -> CanStart(s.x, e.t)
    [] e.op = "end" -> CanEnd(s.x, e.t)
    [] e.op = "destroy" -> s.x.phase = "up"
    [] e.op = "gone" -> CanGone(s.x)
    [] e.op = "got" -> e.v = s.asked[e.t] /\ e.t \in (s.x.finished \cup s.x.running)
    [] e.op = "gotall" -> e.v = [k \in 1..Len(e.ts) |-> s.asked[e.ts[k]]]
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.op = "add" -> [s EXCEPT !.x = Call(@, e.t)]
    [] e.op = "added" -> [s EXCEPT !.x = Return(@, e.t)]
    [] e.op = "start" -> [s EXCEPT !.x = Start_(@, e.t)]
    [] e.op = "end" -> [s EXCEPT !.x = End_(@, e.t)]
    [] e.op = "destroy" -> [s EXCEPT !.x = Destroy(@)]
    [] e.op = "gone" -> [s EXCEPT !.x = Gone(@)]
    [] OTHER -> s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
