------------------------- MODULE OutputStreamsModel -------------------------
(* The segmented writer: a list of segments of fixed size and a position in *)
(* the last one.  Values go in whole where they fit, byte by byte where they *)
(* straddle; blocks are cut at segment ends.  The written bytes must be the  *)
(* specification's list.                                                     *)
EXTENDS OutputStreams, TLC
CONSTANTS SegSizes, Widths, MaxBytes
VARIABLES size, segs, pos, out
vars == <<size, segs, pos, out>>
Blank == 0
NewSeg == [k \in 1..size |-> Blank]
Put(sg, p, b) == [sg EXCEPT ![Len(sg)] = [k \in 1..size |-> IF k > p /\ k <= p + Len(b) THEN b[k - p] ELSE @[k]]]
\* one value of bytes b, as the writer does it
RECURSIVE PutValue(_, _, _)
PutValue(sg, p, b) ==
  IF b = <<>> THEN <<sg, p>>
  ELSE IF p + Len(b) <= size THEN <<Put(sg, p, b), p + Len(b)>>
  ELSE IF p = size THEN PutValue(Append(sg, NewSeg), 0, b)
  ELSE LET RECURSIVE Each(_, _, _)
           Each(g, q, k) == IF k > Len(b) THEN <<g, q>>
                            ELSE LET x == PutValue(g, q, <<b[k]>>) IN Each(x[1], x[2], k + 1)
       IN Each(sg, p, 1)
RECURSIVE PutBlock(_, _, _)
PutBlock(sg, p, b) ==
  IF Len(b) <= size - p THEN <<Put(sg, p, b), p + Len(b)>>
  ELSE IF p = size THEN PutBlock(Append(sg, NewSeg), 0, b)
  ELSE LET n == size - p IN PutBlock(Append(Put(sg, p, SubSeq(b, 1, n)), NewSeg), 0, SubSeq(b, n + 1, Len(b)))
Init == /\ size \in SegSizes /\ segs = <<[k \in 1..size |-> Blank]>> /\ pos = 0 /\ out = <<>>
Fresh(n) == [k \in 1..n |-> Len(out) + k]
Write == \E n \in Widths : \E block \in BOOLEAN : \E little \in BOOLEAN :
           /\ Len(out) + n <= MaxBytes
           /\ LET b == Value(Fresh(n), little /\ ~block)
                  x == IF block THEN PutBlock(segs, pos, b) ELSE PutValue(segs, pos, b)
              IN segs' = x[1] /\ pos' = x[2] /\ out' = out \o b
           /\ UNCHANGED size
Next == Write
Flat == LET RECURSIVE F(_)
            F(k) == IF k > Len(segs) THEN <<>> ELSE segs[k] \o F(k + 1)
        IN F(1)
Written == size * (Len(segs) - 1) + pos
Refines == Written = Len(out) /\ SubSeq(Flat, 1, Written) = out
=============================================================================
