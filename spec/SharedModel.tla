---------------------------- MODULE SharedModel ----------------------------
(* The lock-per-call scheme: each operation acquires the lock, acts and     *)
(* releases.  All histories of a few operations on two or three threads     *)
(* must be accepted by the linearisation rule, nothing may be lost, and     *)
(* merging must take effect as a whole.                                     *)
EXTENDS Shared, FiniteSets
CONSTANTS Kind, Threads, PerThread, Menu, Obj0
VARIABLES obj, lock, pc, left, conf, good
vars == <<obj, lock, pc, left, conf, good>>
Init == /\ obj = Obj0 /\ lock = 0 /\ pc = [t \in Threads |-> None] /\ left = [t \in Threads |-> PerThread]
        /\ conf = {[o |-> Obj0, th |-> [t \in Threads |-> None]]} /\ good = TRUE
Inv(t) == /\ pc[t].s = "none" /\ left[t] > 0
          /\ \E p \in Menu : pc' = [pc EXCEPT ![t] = Open(p)] /\ conf' = Invoke(conf, t, p)
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<obj, lock, good>>
Acquire(t) == pc[t].s = "open" /\ lock = 0 /\ lock' = t /\ UNCHANGED <<obj, pc, left, conf, good>>
Act(t) == /\ lock = t /\ pc[t].s = "open"
          /\ LET d == Do(Kind, obj, pc[t].p) IN obj' = d.o /\ pc' = [pc EXCEPT ![t] = Done(d.r)]
          /\ UNCHANGED <<lock, left, conf, good>>
Release(t) == lock = t /\ pc[t].s = "done" /\ lock' = 0 /\ UNCHANGED <<obj, pc, left, conf, good>>
Ret(t) == /\ pc[t].s = "done" /\ lock # t
          /\ conf' = Return(Kind, conf, t, pc[t].r) /\ good' = (good /\ conf' # {})
          /\ pc' = [pc EXCEPT ![t] = None] /\ UNCHANGED <<obj, lock, left>>
Next == \E t \in Threads : Inv(t) \/ Acquire(t) \/ Act(t) \/ Release(t) \/ Ret(t)
Linear == good
\* at rest the object is one of the possible outcomes
AtRest == (\A t \in Threads : pc[t] = None) => \E c \in conf : c.o = obj
MenuQueue == {[f |-> "push", v |-> 1], [f |-> "push", v |-> 2], [f |-> "pop"], [f |-> "size"]}
MenuMap == {[f |-> "insert", k |-> 1, v |-> 1], [f |-> "insert", k |-> 2, v |-> 2], [f |-> "find", k |-> 1], [f |-> "all"],
            [f |-> "merge", other |-> <<1, 1>>]}
NoMap == <<Absent, Absent>>
NoQueue == <<>>
=============================================================================
