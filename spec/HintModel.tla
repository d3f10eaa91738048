----------------------------- MODULE HintModel -----------------------------
(* Finding the newest and the oldest snapshot.  The hint may hold anything. *)
(* Each access to the file system is a step; meanwhile commits publish.     *)
EXTENDS Integers, FiniteSets

CONSTANTS MaxId, Trusting   \* Trusting: the flawed variant that does not look whether the hinted one exists

VARIABLES lo, hi, lhint, ehint, pc, from, res
vars == <<lo, hi, lhint, ehint, pc, from, res>>
Has(id) == id \in lo..hi
Init == /\ hi \in 0..MaxId /\ lo \in 1..(MaxId + 1) /\ lo <= hi + 1 /\ (hi = 0 => lo = 1) /\ (hi > 0 => lo <= hi)
        /\ lhint \in -2..(MaxId + 2) /\ ehint \in -2..(MaxId + 2)
        /\ pc = "idle" /\ from = hi /\ res = -1
Publish == hi < MaxId /\ hi' = hi + 1 /\ UNCHANGED <<lo, lhint, ehint, pc, from, res>>
Go(p) == pc' = p /\ UNCHANGED <<lo, hi, lhint, ehint, from, res>>
Give(r) == pc' = "done" /\ res' = r /\ UNCHANGED <<lo, hi, lhint, ehint, from>>
\* a hint that is not a positive number is no hint
Latest == \/ pc = "idle" /\ pc' = "latest" /\ from' = hi /\ UNCHANGED <<lo, hi, lhint, ehint, res>>
          \/ pc = "latest" /\ (IF lhint > 0 THEN Go("next") ELSE Go("list"))
          \/ pc = "next" /\ (IF Has(lhint + 1) THEN Go("list") ELSE IF Trusting THEN Give(lhint) ELSE Go("itself"))
          \/ pc = "itself" /\ (IF Has(lhint) THEN Give(lhint) ELSE Go("list"))
          \/ pc = "list" /\ Give(hi)
Next == Publish \/ Latest
\* the answer was the newest one at some time between call and return
Newest == pc = "done" => res \in from..hi
=============================================================================
