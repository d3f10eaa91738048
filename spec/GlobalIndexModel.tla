-------------------------- MODULE GlobalIndexModel --------------------------
(* Expressions over results of a small row space: a score always belongs to   *)
(* its row, and is one that some leaf assigned to that row (shifted along).   *)
EXTENDS GlobalIndex, TLC
CONSTANT N
Rows == 0..N
Leaves == {Plain(R) : R \in SUBSET Rows}
          \cup {Scored([r \in R |-> 10 * r + v]) : R \in SUBSET Rows, v \in {1, 2}}
VARIABLES x, shift
Init == x \in Leaves /\ shift = 0
Next == \/ \E y \in Leaves : shift = 0 /\ x' \in {Conj(x, y), Conj(y, x), Disj(x, y), Disj(y, x)} /\ x'.kind # "err" /\ shift' = 0
        \/ shift < 2 /\ x' = Shift(x, 1) /\ shift' = shift + 1
Aligned == /\ x.kind = "scored" => DOMAIN x.score = x.rows
           /\ x.kind = "scored" => \A r \in x.rows : x.score[r] \in {10 * (r - shift) + 1, 10 * (r - shift) + 2}
           /\ UNION {Runs(x.rows)[k][1]..Runs(x.rows)[k][2] : k \in DOMAIN Runs(x.rows)} = x.rows
           /\ \A k \in 1..(Len(Runs(x.rows)) - 1) : Runs(x.rows)[k][2] + 1 < Runs(x.rows)[k + 1][1]
=============================================================================
