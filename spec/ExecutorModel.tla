--------------------------- MODULE ExecutorModel ---------------------------
(* The worker algorithm: one queue and a condition under one lock; every    *)
(* critical section is one step.  TLC explores all interleavings; the       *)
(* observable history must be one that Executor allows.                     *)
EXTENDS Executor, Sequences, TLC
CONSTANTS Workers, Tasks, Nested, Parent     \* task Parent hands over task Nested while it runs
VARIABLES queue, active, stop, pc, cur, toadd, boss, obs, okay
vars == <<queue, active, stop, pc, cur, toadd, boss, obs, okay>>
Init == /\ queue = <<>> /\ active = 0 /\ stop = FALSE
        /\ pc = [w \in Workers |-> "test"] /\ cur = [w \in Workers |-> 0]
        /\ toadd = Tasks /\ boss = "submit" /\ obs = Fresh(Cardinality(Workers)) /\ okay = TRUE
Waiters(p) == {w \in Workers : p[w] = "wait"}
\* notify one: any one waiter is woken; without waiters nothing happens
NotifyOne(p, q) == IF Waiters(p) = {} THEN q = p ELSE \E w \in Waiters(p) : q = [p EXCEPT ![w] = "test"]
NotifyAll(p) == [w \in Workers |-> IF p[w] = "wait" THEN "test" ELSE p[w]]
Submit(t) ==
  /\ boss = "submit" /\ t \in toadd /\ toadd' = toadd \ {t}
  /\ queue' = Append(queue, t) /\ NotifyOne(pc, pc')
  /\ obs' = Return(Call(obs, t), t)
  /\ UNCHANGED <<active, stop, cur, boss, okay>>
Test(w) ==
  /\ pc[w] = "test"
  /\ IF stop /\ queue = <<>> /\ active = 0
       THEN /\ pc' = [NotifyAll(pc) EXCEPT ![w] = "done"] /\ UNCHANGED <<queue, active, cur>>
     ELSE IF queue # <<>>
       THEN /\ cur' = [cur EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue) /\ active' = active + 1
            /\ pc' = [pc EXCEPT ![w] = "run"]
     ELSE IF stop THEN UNCHANGED <<pc, queue, active, cur>>      \* looks again
     ELSE /\ pc' = [pc EXCEPT ![w] = "wait"] /\ UNCHANGED <<queue, active, cur>>
  /\ UNCHANGED <<stop, toadd, boss, obs, okay>>
Spurious(w) == pc[w] = "wait" /\ pc' = [pc EXCEPT ![w] = "test"] /\ UNCHANGED <<queue, active, stop, cur, toadd, boss, obs, okay>>
Run(w) ==
  /\ pc[w] = "run" /\ okay' = (okay /\ CanStart(obs, cur[w]))
  /\ obs' = Start_(obs, cur[w]) /\ pc' = [pc EXCEPT ![w] = IF cur[w] = Parent THEN "nest" ELSE "end"]
  /\ UNCHANGED <<queue, active, stop, cur, toadd, boss>>
Nest(w) ==
  /\ pc[w] = "nest"
  /\ IF stop THEN queue' = queue /\ pc' = [pc EXCEPT ![w] = "end"] /\ obs' = Return(Call(obs, Nested), Nested)
     ELSE /\ queue' = Append(queue, Nested) /\ \E q \in [Workers -> {"test", "wait", "run", "nest", "end", "fin", "done"}] :
                NotifyOne(pc, q) /\ pc' = [q EXCEPT ![w] = "end"]
          /\ obs' = Return(Call(obs, Nested), Nested)
  /\ UNCHANGED <<active, stop, cur, toadd, boss, okay>>
End(w) ==
  /\ pc[w] = "end" /\ okay' = (okay /\ CanEnd(obs, cur[w])) /\ obs' = End_(obs, cur[w])
  /\ pc' = [pc EXCEPT ![w] = "fin"] /\ UNCHANGED <<queue, active, stop, cur, toadd, boss>>
Fin(w) ==
  /\ pc[w] = "fin" /\ active' = active - 1
  /\ pc' = [(IF queue = <<>> /\ active = 1 THEN NotifyAll(pc) ELSE pc) EXCEPT ![w] = "test"]
  /\ UNCHANGED <<queue, stop, cur, toadd, boss, obs, okay>>
Stop == /\ boss = "submit" /\ toadd = {} /\ stop' = TRUE /\ boss' = "join" /\ pc' = NotifyAll(pc)
        /\ obs' = Destroy(obs) /\ UNCHANGED <<queue, active, cur, toadd, okay>>
Join == /\ boss = "join" /\ \A w \in Workers : pc[w] = "done"
        /\ boss' = "gone" /\ okay' = (okay /\ CanGone(obs)) /\ obs' = Gone(obs)
        /\ UNCHANGED <<queue, active, stop, pc, cur, toadd>>
Idle == boss = "gone" /\ UNCHANGED vars
Next == (\E t \in Tasks : Submit(t)) \/ (\E w \in Workers : Test(w) \/ Spurious(w) \/ Run(w) \/ Nest(w) \/ End(w) \/ Fin(w)) \/ Stop \/ Join \/ Idle
Spec == Init /\ [][Next]_vars /\ (\A t \in Tasks : WF_vars(Submit(t))) /\ WF_vars(Stop) /\ WF_vars(Join)
             /\ (\A w \in Workers : WF_vars(Test(w)) /\ WF_vars(Run(w)) /\ WF_vars(Nest(w)) /\ WF_vars(End(w)) /\ WF_vars(Fin(w)))
Okay == okay
Ends == <>(boss = "gone")
=============================================================================
