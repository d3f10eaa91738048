----------------------------- MODULE BloomModel -----------------------------
(* Adding hashes in any order: no added hash is ever denied, bits only grow,  *)
(* a fresh filter denies everything.                                         *)
EXTENDS Bloom, TLC
CONSTANTS NBITS, K
C == {0, 1, 32768, 65535}
H == {<<a, b, c, d>> : a, b, c, d \in C}
Some == {h \in H : (h[1] + h[2] + h[3] + h[4]) % 3 = 0}
VARIABLES bits, added
Init == bits = {} /\ added = {}
Next == \E h \in Some : Cardinality(added) < 2 /\ added' = added \cup {h} /\ bits' = bits \cup Positions(h, K, NBITS)
NoFalseDenial == \A h \in added : Maybe(bits, h, K, NBITS)
FreshDenies == added = {} => \A h \in H : ~Maybe(bits, h, K, NBITS)
InRange == bits \subseteq 0..(NBITS - 1)
=============================================================================
