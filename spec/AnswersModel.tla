---------------------------- MODULE AnswersModel ----------------------------
(* All expressions built step by step over the answers of a small file:       *)
(* no combination drops a row that logic keeps, and combinations of the       *)
(* built-in answers keep exactly what logic keeps.                            *)
EXTENDS Answers, TLC
CONSTANT N
Leaf == {All, None, [kind |-> "oall", rows |-> {}], [kind |-> "onone", rows |-> {}]} \cup {Rows(S) : S \in SUBSET (0..(N - 1))}
VARIABLES x, y, exact, op, z
Init == x \in Leaf /\ y \in Leaf /\ exact = TRUE /\ op = "start" /\ z = All
Next == \/ op' = "and" /\ z' = Conj(x, y) /\ exact' = ~(Other(x) \/ Other(y)) /\ UNCHANGED <<x, y>> /\ op = "start"
        \/ op' = "or" /\ z' = Disj(x, y) /\ exact' = ~(Other(x) \/ Other(y)) /\ UNCHANGED <<x, y>> /\ op = "start"
        \/ op # "start" /\ op' = "start" /\ x' = z /\ y' \in Leaf /\ UNCHANGED <<z, exact>>
Logic == IF op = "and" THEN Keeps(x, N) \cap Keeps(y, N) ELSE Keeps(x, N) \cup Keeps(y, N)
Sound == op # "start" => /\ Logic \subseteq Keeps(z, N)
                         /\ exact => Logic = Keeps(z, N)
                         /\ (MayKeep(z) <=> Keeps(z, N) # {})
=============================================================================
