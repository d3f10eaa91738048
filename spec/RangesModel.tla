---------------------------- MODULE RangesModel ----------------------------
(* For every list of up to three ranges over 0..N (and a fourth range): the *)
(* sweeps compute exactly what the operations denote.                       *)
EXTENDS Ranges, TLC
CONSTANT N
VARIABLES in, a
R == {<<x, y>> \in (0..N) \X (0..N) : x <= y}
Lists == UNION {[1..k -> R] : k \in 0..3}
Init == in \in Lists /\ a \in R
Next == FALSE /\ UNCHANGED <<in, a>>
Denotes(rs) == UNION {rs[k][1]..rs[k][2] : k \in DOMAIN rs}
Disjoint(rs) == \A k \in 1..(Len(rs) - 1) : rs[k][2] < rs[k + 1][1]
Correct ==
  /\ \A adj \in {0, 1} :
       /\ MergeAlgo(in, adj) = Merged(in, adj)
       /\ Denotes(Merged(in, adj)) = Denotes(in)
       /\ Disjoint(Merged(in, adj))
  /\ \A k \in 1..(Len(Merged(in, 1)) - 1) : Merged(in, 1)[k][2] + 1 < Merged(in, 1)[k + 1][1]
  /\ LET m == Merged(in, 0) IN
       /\ AndAlgo(m, <<a>>) = Intersect(m, <<a>>)
       /\ AndAlgo(<<a>>, m) = Intersect(m, <<a>>)
       /\ Denotes(Intersect(m, <<a>>)) = Denotes(m) \cap (a[1]..a[2])
  /\ ExcludeAlgo(a, in) = Minus(a, in)
  /\ Denotes(Minus(a, in)) = (a[1]..a[2]) \ Denotes(in)
  /\ Disjoint(Minus(a, in))
  /\ LET lst == Append(in, a) IN
       /\ GroupAlgo(lst) = Grouping(lst)
       /\ UNION Groups(lst) = DOMAIN lst
       /\ \A g, h \in Groups(lst) : g = h \/ g \cap h = {}
=============================================================================
