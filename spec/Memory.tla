------------------------------- MODULE Memory -------------------------------
(* A region of memory is a list of bytes; how it is cut into segments is    *)
(* not part of its state.                                                   *)
EXTENDS Integers, Sequences
Get(m, off, n) == [k \in 1..n |-> m[off + k]]
Put(m, off, q) == [k \in 1..Len(m) |-> IF k > off /\ k <= off + Len(q) THEN q[k - off] ELSE m[k]]
Pow2x(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128
BitAt(m, base, k) == (m[base + (k \div 8) + 1] \div Pow2x(k % 8)) % 2 = 1
WithBit(m, base, k, on) ==
  LET p == base + (k \div 8) + 1
      was == BitAt(m, base, k)
  IN IF was = on THEN m ELSE [m EXCEPT ![p] = IF on THEN @ + Pow2x(k % 8) ELSE @ - Pow2x(k % 8)]
\* order of byte lists: first difference decides, then length
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CompareBytes(p, q) ==
  LET n == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
      D == {k \in 1..n : p[k] # q[k]}
  IN IF D = {} THEN Sign(Len(p) - Len(q))
     ELSE LET k == CHOOSE k \in D : \A j \in D : k <= j IN Sign(p[k] - q[k])
FindBytes(p, q) ==     \* first position of q in p, 0-based, or -1
  LET S == {k \in 0..(Len(p) - Len(q)) : Get(p, k, Len(q)) = q}
  IN IF S = {} THEN -1 ELSE CHOOSE k \in S : \A j \in S : k <= j
Rev(q) == [n \in 1..Len(q) |-> q[Len(q) + 1 - n]]
=============================================================================
