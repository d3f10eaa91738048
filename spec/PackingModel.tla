----------------------------- MODULE PackingModel -----------------------------
(* One pass over the items, closing a bin before the item that does not fit.     *)
EXTENDS Packing, TLC
CONSTANTS MaxLen, MaxWeight, MaxTarget

VARIABLES w, target, k, bins, bin, weight
vars == <<w, target, k, bins, bin, weight>>

Init == /\ \E n \in 0..MaxLen : w \in [1..n -> 0..MaxWeight]
        /\ target \in 0..MaxTarget
        /\ k = 1 /\ bins = <<>> /\ bin = <<>> /\ weight = 0

Item == /\ k <= Len(w)
        /\ IF weight + w[k] > target /\ bin # <<>>
           THEN bins' = Append(bins, bin) /\ bin' = <<k>> /\ weight' = w[k]
           ELSE bins' = bins /\ bin' = Append(bin, k) /\ weight' = weight + w[k]
        /\ k' = k + 1 /\ UNCHANGED <<w, target>>
Finish == /\ k = Len(w) + 1
          /\ bins' = (IF bin = <<>> THEN bins ELSE Append(bins, bin))
          /\ bin' = <<>> /\ weight' = 0 /\ k' = k + 1 /\ UNCHANGED <<w, target>>
Next == Item \/ Finish
Spec == Init /\ [][Next]_vars

Done == k = Len(w) + 2
Right == Done => Packed(w, target, bins)
(* the packing is the only one with these properties: whatever way the items are *)
(* cut into consecutive bins                                                     *)
RECURSIVE Cut(_, _, _)
Cut(n, from, cuts) ==    \* cuts: set of positions after which a new bin starts
  IF from > n THEN <<>>
  ELSE LET later == {c \in cuts : c >= from}
           end == IF later = {} THEN n ELSE CHOOSE c \in later : \A d \in later : c <= d
       IN <<[j \in 1..(end - from + 1) |-> from + j - 1]>> \o Cut(n, end + 1, cuts)
Unique == Done => \A cuts \in SUBSET (1..(Len(w) - 1)) :
                     LET other == Cut(Len(w), 1, cuts) IN Packed(w, target, other) => other = bins
=============================================================================
