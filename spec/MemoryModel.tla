---------------------------- MODULE MemoryModel ----------------------------
(* Segment-wise algorithms against the flat list: copying out, writing a    *)
(* straddling value and comparing two regions walk over segments of sizes   *)
(* s1 and s2; every start, length and division must give the flat result.   *)
EXTENDS Memory, TLC
CONSTANTS Total, SegSizes
VARIABLES s1, s2, o1, o2, n, diff
Flat == [k \in 1..Total |-> k]
Other == [k \in 1..Total |-> IF k = diff THEN 0 ELSE k]     \* differs in at most one byte
Segs(m, s) == [k \in 1..(Total \div s) |-> Get(m, (k - 1) * s, s)]
Init == /\ s1 \in SegSizes /\ s2 \in SegSizes /\ o1 \in 0..Total /\ o2 \in 0..Total
        /\ n \in 0..Total /\ o1 + n <= Total /\ o2 + n <= Total /\ diff \in 0..Total
Next == UNCHANGED <<s1, s2, o1, o2, n, diff>>
Min(a, b) == IF a < b THEN a ELSE b
CopyOut(g, off, cnt) ==
  LET RECURSIVE C(_, _, _)
      C(k, o, left) ==
        IF k > Len(g) \/ left = 0 THEN <<>>
        ELSE LET remain == Len(g[k]) - o IN
             IF remain > 0 THEN LET c == Min(remain, left) IN Get(g[k], o, c) \o C(k + 1, 0, left - c)
             ELSE C(k + 1, -remain, left)
  IN C(1, off, cnt)
Equal(g, a, h, b, cnt) ==
  LET RECURSIVE E(_, _, _, _, _)
      E(i1, p1, i2, p2, left) ==
        IF left = 0 THEN TRUE
        ELSE LET c == Min(Min(left, s1 - p1), s2 - p2) IN
             /\ Get(g[i1], p1, c) = Get(h[i2], p2, c)
             /\ E(IF p1 + c = s1 THEN i1 + 1 ELSE i1, IF p1 + c = s1 THEN 0 ELSE p1 + c,
                  IF p2 + c = s2 THEN i2 + 1 ELSE i2, IF p2 + c = s2 THEN 0 ELSE p2 + c, left - c)
  IN E((a \div s1) + 1, a % s1, (b \div s2) + 1, b % s2, cnt)
Shifted == [k \in 1..Total |-> IF k > o2 /\ k <= o2 + n THEN Flat[o1 + k - o2] ELSE 0]
Correct ==
  /\ CopyOut(Segs(Flat, s1), o1, n) = Get(Flat, o1, n)
  /\ LET m == [k \in 1..Total |-> IF k = diff THEN 0 ELSE Shifted[k]] IN
     Equal(Segs(Flat, s1), o1, Segs(m, s2), o2, n) <=> (Get(Flat, o1, n) = Get(m, o2, n))
=============================================================================
