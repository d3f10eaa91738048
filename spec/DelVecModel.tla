---------------------------- MODULE DelVecModel ----------------------------
\* A file is read in batches of any size, perhaps leaving out stretches that a filter
\* excludes; each batch is cut down by the vector, counting from the row it begins with.
\* Every row that is neither deleted nor excluded comes out once.
EXTENDS DelVec
CONSTANTS Rows, Running
VARIABLES del, next, skipped, out
vars == <<del, next, skipped, out>>
All == 0..(Rows - 1)
Init == del \in SUBSET All /\ next = 0 /\ skipped = {} /\ out = <<>>
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Ordered(S \ {x})
\* Running: the position is counted over the batches returned instead of over the file
First == IF Running THEN next - Cardinality(skipped) ELSE next
Read == \E n \in 1..(Rows - next) :
          /\ out' = out \o Ordered({next + j : j \in Valid(del, First, n)})
          /\ next' = next + n /\ UNCHANGED <<del, skipped>>
Skip == \E n \in 1..(Rows - next) : skipped' = skipped \cup (next..(next + n - 1)) /\ next' = next + n /\ UNCHANGED <<del, out>>
Next == next < Rows /\ (Read \/ Skip)
Spec == Init /\ [][Next]_vars
Exact == next = Rows => out = Ordered((All \ del) \ skipped)
=============================================================================
