---------------------------- MODULE GlobalIndex ----------------------------
(* Global index results: a set of row ids, possibly with one score per row.  *)
EXTENDS Integers, Sequences, FiniteSets
NoScore == <<>>
Plain(R) == [kind |-> "plain", rows |-> R, score |-> NoScore]
Scored(f) == [kind |-> "scored", rows |-> DOMAIN f, score |-> f]
Restrict(f, S) == [x \in S |-> f[x]]
Err == [kind |-> "err", rows |-> {}, score |-> NoScore]

\* Both scored: a row could have two scores, so scores are dropped.
Conj(x, y) == IF x.kind = "scored" /\ y.kind = "plain" THEN Scored(Restrict(x.score, x.rows \cap y.rows))
              ELSE Plain(x.rows \cap y.rows)
\* Scores survive a union only if every row has exactly one.
Disj(x, y) == IF x.kind = "scored" /\ y.kind = "scored"
              THEN IF x.rows \cap y.rows # {} THEN Err
                   ELSE Scored([r \in x.rows \cup y.rows |-> IF r \in x.rows THEN x.score[r] ELSE y.score[r]])
              ELSE Plain(x.rows \cup y.rows)
Shift(x, d) == IF x.kind = "scored" THEN Scored([r \in {q + d : q \in x.rows} |-> x.score[r - d]])
               ELSE Plain({q + d : q \in x.rows})

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
\* maximal runs of consecutive rows, in order
Runs(R) == LET starts == Sorted({x \in R : x - 1 \notin R})
               End(x) == CHOOSE y \in R : y >= x /\ y + 1 \notin R /\ \A z \in x..y : z \in R
           IN [k \in DOMAIN starts |-> <<starts[k], End(starts[k])>>]
=============================================================================
