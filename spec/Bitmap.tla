------------------------------- MODULE Bitmap -------------------------------
(* Row-position bitmaps as sets.                                            *)
(* The value space is divided into atoms (intervals of consecutive values); *)
(* a bitmap is the set of atoms it contains.                                *)
EXTENDS Integers, Sequences, FiniteSets

Moved == "moved"

RECURSIVE SumSize(_, _)
SumSize(S, size) == IF S = {} THEN 0
                    ELSE LET x == CHOOSE y \in S : TRUE IN size[x] + SumSize(S \ {x}, size)

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

\* what a complete iteration reports: one group per atom, in order
Listing(S, size) == LET q == Sorted(S) IN [k \in 1..Len(q) |-> <<q[k], 0, size[q[k]] - 1>>]

\* first value >= (a, off)
AtOrAfter(S, a, off) ==
  IF a \in S THEN <<a, off>>
  ELSE LET L == {x \in S : x > a} IN
       IF L = {} THEN <<>> ELSE <<CHOOSE x \in L : \A y \in L : x <= y, 0>>

\* value following (a, off)
After(S, a, off, size) == IF off + 1 < size[a] THEN <<a, off + 1>>
                    ELSE LET L == {x \in S : x > a} IN
                         IF L = {} THEN <<>> ELSE <<CHOOSE x \in L : \A y \in L : x <= y, 0>>

RECURSIVE Walk(_, _, _, _)
Walk(S, p, k, size) == IF p = <<>> THEN <<>>
                       ELSE IF k = 0 THEN <<p>>
                       ELSE <<p>> \o Walk(S, After(S, p[1], p[2], size), k - 1, size)

Flip(S, R) == (S \ R) \cup (R \ S)
=============================================================================
