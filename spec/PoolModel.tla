----------------------------- MODULE PoolModel -----------------------------
(* The counting algorithm: one atomic addition, then the peak is raised by  *)
(* compare-and-exchange until it is no smaller than the sum just reached.   *)
(* TLC explores all interleavings; at rest both numbers are exact.          *)
EXTENDS Pool
CONSTANTS Threads, Sizes, PerThread
VARIABLES total, peak, pc, mine, seen, held, left, true
vars == <<total, peak, pc, mine, seen, held, left, true>>
Init == /\ total = 0 /\ peak = 0 /\ pc = [t \in Threads |-> "idle"] /\ mine = [t \in Threads |-> 0]
        /\ seen = [t \in Threads |-> 0] /\ held = [t \in Threads |-> 0] /\ left = [t \in Threads |-> PerThread]
        /\ true = Empty
Add(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ held[t] = 0
          /\ \E n \in Sizes : /\ total' = total + n /\ mine' = [mine EXCEPT ![t] = total + n]
                              /\ held' = [held EXCEPT ![t] = n] /\ true' = Grow(true, n)
          /\ pc' = [pc EXCEPT ![t] = "load"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<peak, seen>>
Load(t) == pc[t] = "load" /\ seen' = [seen EXCEPT ![t] = peak] /\ pc' = [pc EXCEPT ![t] = "cas"]
           /\ UNCHANGED <<total, peak, mine, held, left, true>>
Cas(t) == /\ pc[t] = "cas"
          /\ IF mine[t] <= seen[t] THEN pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<peak, seen>>
             ELSE IF peak = seen[t] THEN peak' = mine[t] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED seen
             ELSE seen' = [seen EXCEPT ![t] = peak] /\ UNCHANGED <<peak, pc>>
          /\ UNCHANGED <<total, mine, held, left, true>>
Sub(t) == /\ pc[t] = "idle" /\ held[t] > 0 /\ total' = total - held[t] /\ held' = [held EXCEPT ![t] = 0]
          /\ true' = Shrink(true, held[t]) /\ UNCHANGED <<peak, pc, mine, seen, left>>
Next == \E t \in Threads : Add(t) \/ Load(t) \/ Cas(t) \/ Sub(t)
Usage == total = true.cur
Peak == (\A t \in Threads : pc[t] = "idle") => peak = true.peak
=============================================================================
