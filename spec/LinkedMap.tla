------------------------------ MODULE LinkedMap ------------------------------
(* A map that remembers insertion order is a list of entries <<key, value>> with *)
(* distinct keys.                                                                *)
EXTENDS Integers, Sequences

KeysOf(m) == {m[j][1] : j \in DOMAIN m}
PosOf(m, k) == IF k \in KeysOf(m) THEN CHOOSE j \in DOMAIN m : m[j][1] = k ELSE 0
Drop(m, j) == SubSeq(m, 1, j - 1) \o SubSeq(m, j + 1, Len(m))

Insert(m, k, v) == IF k \in KeysOf(m) THEN m ELSE Append(m, <<k, v>>)
Assign(m, k, v) == IF k \in KeysOf(m) THEN [m EXCEPT ![PosOf(m, k)] = <<k, v>>] ELSE Append(m, <<k, v>>)
Erase(m, k) == IF k \in KeysOf(m) THEN Drop(m, PosOf(m, k)) ELSE m
Lookup(m, k) == IF k \in KeysOf(m) THEN m[PosOf(m, k)][2] ELSE -1

(* the entry after the erased one, <<>> at the end or if nothing was erased *)
AfterErase(m, k) == IF k \in KeysOf(m) /\ PosOf(m, k) < Len(m) THEN m[PosOf(m, k) + 1] ELSE <<>>

Distinct(m) == \A a, b \in DOMAIN m : m[a][1] = m[b][1] => a = b
=============================================================================
