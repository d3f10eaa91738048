-------------------------- MODULE PartitionPathModel --------------------------
(* Every partition over short texts of tricky bytes: the path gives it back.      *)
EXTENDS PartitionPath, TLC
CONSTANTS Byte, MaxText, MaxDepth

Texts == UNION {[1..n -> Byte] : n \in 1..MaxText}
VARIABLE p
Init == p = <<>>
Next == /\ Len(p) < MaxDepth
        /\ \E a \in Texts, b \in Texts : p' = Append(p, <<a, b>>)
Spec == Init /\ [][Next]_p
(* Parse is a function of the path, so equal paths come from equal partitions *)
RoundTrip == Parse(Path(p)) = p
Clean == \A t \in Texts : LET e == Escape(t) IN
            \A j \in DOMAIN e : e[j] # Slash /\ e[j] # Equals /\ e[j] > 31
Hierarchy == Prefixes(p) # <<>> => Prefixes(p)[Len(p)] = Path(p)
=============================================================================
