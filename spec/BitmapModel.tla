---------------------------- MODULE BitmapModel ----------------------------
(* The set algebra the bitmaps must follow, explored over all pairs of sets *)
(* of a small universe: laws relating the queries to the operations.        *)
EXTENDS Bitmap, TLC
CONSTANT N
VARIABLES a, b
U == 1..N
size == [x \in U |-> x]
R == {x..y : x \in U, y \in 0..N}
Init == a = {} /\ b = {}
Next == \/ \E x \in U : a' = a \cup {x} /\ b' = b
        \/ \E r \in R : a' \in {a \cup r, a \ r, Flip(a, r)} /\ b' = b
        \/ a' \in {a \cup b, a \cap b, a \ b} /\ b' = b
        \/ a' = b /\ b' = a
        \/ b' = a /\ a' = a
TypeOK == a \subseteq U /\ b \subseteq U
Laws ==
  /\ SumSize(a \cup b, size) + SumSize(a \cap b, size) = SumSize(a, size) + SumSize(b, size)
  /\ SumSize(a \ b, size) = SumSize(a, size) - SumSize(a \cap b, size)
  /\ \A r \in R : Flip(Flip(a, r), r) = a
  /\ \A r \in R : Flip(a, r) \cup Flip(b, r) = Flip(a \cap b, r) \cup ((a \cup b) \ r)
  /\ \A x \in U : LET p == AtOrAfter(a, x, 0) IN
        /\ (p = <<>>) <=> (a \cap (x..N) = {})
        /\ p # <<>> => (p[1] \in a /\ p[1] >= x /\ a \cap (x..(p[1] - 1)) = {})
  /\ LET L == Listing(a, size) IN
        /\ Len(L) = Cardinality(a)
        /\ \A k \in 1..(Len(L) - 1) : L[k][1] < L[k + 1][1]
        /\ {L[k][1] : k \in 1..Len(L)} = a
  /\ a # {} => LET w == Walk(a, AtOrAfter(a, 1, 0), SumSize(a, size) + 1, size) IN Len(w) = SumSize(a, size)
=============================================================================
