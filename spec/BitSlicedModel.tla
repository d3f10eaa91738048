--------------------------- MODULE BitSlicedModel ---------------------------
(* All columns of R rows over 0..V with nulls, all declared bounds that       *)
(* enclose the values, all operators and literals.                            *)
EXTENDS BitSliced, TLC
CONSTANTS R, V
VARIABLES col, lo, hi
Null == -1
Init == /\ \E f \in [1..R -> (0..V) \cup {Null}] :
              col = [r \in {x \in 1..R : f[x] # Null} |-> f[r]]
        /\ lo \in 0..V /\ hi \in lo..V
        /\ \A r \in DOMAIN col : col[r] \in lo..hi
Next == FALSE /\ UNCHANGED <<col, lo, hi>>
Exact == \A op \in Ops : \A l \in -1..(V + 1) : Algo(col, lo, hi, op, l) = Answer(col, op, l)
=============================================================================
