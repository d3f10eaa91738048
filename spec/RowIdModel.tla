---------------------------- MODULE RowIdModel ----------------------------
(* Row ids: an attempt to commit numbers its rows from where the snapshot   *)
(* it builds on ended; if somebody else is faster the next attempt numbers  *)
(* them anew.                                                               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Procs, NUnits, Sticky   \* Sticky: the flawed variant that keeps the numbers of the first attempt

VARIABLES snaps, pc, unit, size, base, first
vars == <<snaps, pc, unit, size, base, first>>
End(b) == IF b = 0 THEN 0 ELSE snaps[b].end
Init == /\ snaps = <<>> /\ pc = [p \in Procs |-> "idle"] /\ unit = [p \in Procs |-> 1]
        /\ size = [p \in Procs |-> 0] /\ base = [p \in Procs |-> 0] /\ first = [p \in Procs |-> -1]
Put(f, p, v) == f' = [f EXCEPT ![p] = v]
Begin(p) == /\ pc[p] = "idle" /\ unit[p] <= NUnits
            /\ \E s \in 0..2 : Put(size, p, s)
            /\ Put(pc, p, "look") /\ Put(first, p, -1) /\ UNCHANGED <<snaps, unit, base>>
Look(p) == /\ pc[p] = "look"
           /\ Put(base, p, Len(snaps))
           /\ Put(first, p, IF Sticky /\ first[p] >= 0 THEN first[p] ELSE End(Len(snaps)))
           /\ Put(pc, p, "publish") /\ UNCHANGED <<snaps, unit, size>>
Publish(p) == /\ pc[p] = "publish"
              /\ IF Len(snaps) > base[p] THEN Put(pc, p, "look") /\ UNCHANGED <<snaps, unit>>
                 ELSE /\ snaps' = Append(snaps, [first |-> first[p], n |-> size[p], end |-> End(base[p]) + size[p]])
                      /\ Put(pc, p, "idle") /\ Put(unit, p, unit[p] + 1)
              /\ UNCHANGED <<size, base, first>>
Next == \E p \in Procs : Begin(p) \/ Look(p) \/ Publish(p)
Rows(k) == snaps[k].first..(snaps[k].first + snaps[k].n - 1)
Unique == \A a, b \in DOMAIN snaps : a # b => Rows(a) \cap Rows(b) = {}
GapFree == \A k \in DOMAIN snaps : /\ UNION {Rows(j) : j \in 1..k} = 0..(snaps[k].end - 1)
                                   /\ snaps[k].n > 0 => snaps[k].first = End(k - 1)
=============================================================================
