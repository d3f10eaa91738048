------------------------------- MODULE Packing -------------------------------
(* Bins over a list of weights: bins are lists of item numbers 1..n.             *)
EXTENDS Integers, Sequences

RECURSIVE Flat(_)
Flat(bins) == IF bins = <<>> THEN <<>> ELSE Head(bins) \o Flat(Tail(bins))
RECURSIVE Sum(_, _)
Sum(w, bin) == IF bin = <<>> THEN 0 ELSE w[Head(bin)] + Sum(w, Tail(bin))

Packed(w, target, bins) ==
  /\ Flat(bins) = [j \in 1..Len(w) |-> j]                        \* order kept, nothing lost or doubled
  /\ \A b \in DOMAIN bins : Len(bins[b]) > 0
  /\ \A b \in DOMAIN bins : Sum(w, bins[b]) > target => Len(bins[b]) = 1
  /\ \A b \in 1..(Len(bins) - 1) : Sum(w, bins[b]) + w[Head(bins[b + 1])] > target
=============================================================================
