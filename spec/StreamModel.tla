---------------------------- MODULE StreamModel ----------------------------
(* A streaming scan step by step against commits and expiration: it keeps   *)
(* the id of the snapshot that comes next; a poll delivers its changes if   *)
(* it was an append, passes over it if it was not, gives nothing if it does *)
(* not exist yet, and fails if it is gone or cannot exist.                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxId, Silent   \* Silent: the flawed variant that goes on at the oldest one left

VARIABLES lo, kinds, pc, next, out, failed, start
vars == <<lo, kinds, pc, next, out, failed, start>>
Hi == Len(kinds)
Has(id) == id >= lo /\ id <= Hi
Init == lo = 1 /\ kinds = <<>> /\ pc = "idle" /\ next = 0 /\ out = <<>> /\ failed = FALSE /\ start = 0
Commit == Hi < MaxId /\ \E k \in {"append", "other"} : kinds' = Append(kinds, k)
          /\ UNCHANGED <<lo, pc, next, out, failed, start>>
Expire == lo < Hi /\ lo' = lo + 1 /\ UNCHANGED <<kinds, pc, next, out, failed, start>>
\* the start: after the newest, at a given id, or with the content of the newest
Open == /\ next = 0 /\ pc = "idle"
        /\ \E s \in 1..MaxId : /\ (s = Hi + 1 \/ Has(s)) /\ next' = s /\ start' = s
        /\ UNCHANGED <<lo, kinds, pc, out, failed>>
Poll == pc = "idle" /\ next > 0 /\ ~failed /\ pc' = "look" /\ UNCHANGED <<lo, kinds, next, out, failed, start>>
Look == /\ pc = "look"
        /\ IF Has(next)
           THEN IF kinds[next] = "append"
                THEN out' = Append(out, next) /\ next' = next + 1 /\ pc' = "idle" /\ UNCHANGED failed
                ELSE next' = next + 1 /\ UNCHANGED <<out, pc, failed>>
           ELSE pc' = "gone" /\ UNCHANGED <<next, out, failed>>
        /\ UNCHANGED <<lo, kinds, start>>
Gone == /\ pc = "gone" /\ pc' = "idle"
        /\ IF next < lo
           THEN IF Silent THEN next' = lo /\ UNCHANGED failed ELSE failed' = TRUE /\ UNCHANGED next
           ELSE UNCHANGED <<next, failed>>
        /\ UNCHANGED <<lo, kinds, out, start>>
Next == Commit \/ Expire \/ Open \/ Poll \/ Look \/ Gone
Wanted == SelectSeq([k \in 1..(next - start) |-> start + k - 1], LAMBDA id : kinds[id] = "append")
\* exactly the appends from the start up to here, each once and in order
Exact == next > 0 => out = Wanted
=============================================================================
