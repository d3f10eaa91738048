------------------------------ MODULE Answers ------------------------------
(* Index answers: the set of rows of a file that must still be read.  An      *)
(* answer is [kind, rows]; kind is                                            *)
(*   "all"/"none"    the constants,  "rows" an explicit row set,              *)
(*   "oall"/"onone"  some other answer type that only says keep or skip,      *)
(*   "fail"          an answer whose rows cannot be computed.                 *)
EXTENDS Integers, Sequences, FiniteSets

Keeps(x, N) == CASE x.kind \in {"all", "oall"} -> 0..(N - 1)
                 [] x.kind \in {"none", "onone"} -> {}
                 [] x.kind = "rows" -> x.rows
All == [kind |-> "all", rows |-> {}]
None == [kind |-> "none", rows |-> {}]
Rows(S) == [kind |-> "rows", rows |-> S]
Fail == [kind |-> "fail", rows |-> {}]
Err == [kind |-> "err", rows |-> {}]
IsConst(x) == x.kind \in {"all", "none"}
IsSet(x) == x.kind \in {"rows", "fail"}
Other(x) == x.kind \in {"oall", "onone"}
MayKeep(x) == x.kind \in {"all", "oall"} \/ (x.kind = "rows" /\ x.rows # {})

\* The result of combining, as implemented; Sound below relates it to the logic.
Conj(x, y) ==
  CASE x.kind = "all" -> y
    [] x.kind = "none" -> x
    [] IsSet(x) /\ IsSet(y) -> IF x.kind = "fail" \/ y.kind = "fail" THEN Fail ELSE Rows(x.rows \cap y.rows)
    [] OTHER -> IF y.kind = "fail" THEN Err ELSE IF MayKeep(y) THEN x ELSE None
Disj(x, y) ==
  CASE x.kind = "all" -> x
    [] x.kind = "none" -> y
    [] IsSet(x) /\ IsSet(y) -> IF x.kind = "fail" \/ y.kind = "fail" THEN Fail ELSE Rows(x.rows \cup y.rows)
    [] OTHER -> IF y.kind = "fail" THEN Err ELSE IF MayKeep(y) THEN All ELSE x
RECURSIVE ConjAll(_), DisjAll(_)
ConjAll(q) == IF Len(q) = 1 THEN q[1]
              ELSE LET p == ConjAll(SubSeq(q, 1, Len(q) - 1)) IN IF p.kind = "err" THEN Err ELSE Conj(p, q[Len(q)])
DisjAll(q) == IF Len(q) = 1 THEN q[1]
              ELSE LET p == DisjAll(SubSeq(q, 1, Len(q) - 1)) IN IF p.kind = "err" THEN Err ELSE Disj(p, q[Len(q)])
=============================================================================
