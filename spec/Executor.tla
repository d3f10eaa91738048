------------------------------ MODULE Executor ------------------------------
(* What users of the executor observe: tasks are handed over, run, and the  *)
(* executor is destroyed.  A state is a record                              *)
(*   n        number of workers          called   tasks handed over so far  *)
(*   accepted tasks whose hand-over returned before destruction began       *)
(*   running / finished                  phase    "up", "down", "gone"      *)
EXTENDS Integers, FiniteSets
Fresh(n) == [n |-> n, called |-> {}, accepted |-> {}, running |-> {}, finished |-> {}, phase |-> "up"]
CanCall(s, t) == t \notin s.called
Call(s, t) == [s EXCEPT !.called = @ \cup {t}]
Return(s, t) == IF s.phase = "up" THEN [s EXCEPT !.accepted = @ \cup {t}] ELSE s
\* a task starts at most once, only after it was handed over, within the limit
CanStart(s, t) == /\ t \in s.called /\ t \notin s.running /\ t \notin s.finished
                  /\ Cardinality(s.running) < s.n /\ s.phase # "gone"
Start_(s, t) == [s EXCEPT !.running = @ \cup {t}]
CanEnd(s, t) == t \in s.running
End_(s, t) == [s EXCEPT !.running = @ \ {t}, !.finished = @ \cup {t}]
Destroy(s) == [s EXCEPT !.phase = "down"]
\* destruction returns when nothing accepted is left
CanGone(s) == s.running = {} /\ s.accepted \subseteq s.finished
Gone(s) == [s EXCEPT !.phase = "gone"]
=============================================================================
