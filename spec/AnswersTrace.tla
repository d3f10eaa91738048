---------------------------- MODULE AnswersTrace ----------------------------
EXTENDS Trace, Answers
\* node k of the expression; "err" nodes were replaced by the driver with "all"
Start(init) == [n |-> init.rows, node |-> <<>>]
Set(q) == Range(q)
New(s, e) ==
  CASE e.op = "leaf" -> [kind |-> e.kind, rows |-> Set(e.rows)]
    [] e.op = "and" -> Conj(s.node[e.a], s.node[e.b])
    [] e.op = "or" -> Disj(s.node[e.a], s.node[e.b])
    [] e.op = "in" /\ e.lits = <<>> -> None
    [] e.op = "notin" /\ e.lits = <<>> -> All
    [] e.op = "in" -> DisjAll([k \in DOMAIN e.lits |-> s.node[e.lits[k]]])
    [] e.op = "notin" -> ConjAll([k \in DOMAIN e.lits |-> s.node[e.lits[k]]])

\* an observed answer d against the specified one
Shows(x, d, N) ==
  LET kept == CASE d.kind = "all" -> 0..(N - 1)
                [] d.kind = "none" -> {}
                [] d.kind = "other" -> IF d.remain THEN 0..(N - 1) ELSE {}
                [] d.kind = "rows" -> Set(d.rows)
                [] OTHER -> {-1}
  IN IF x.kind = "fail" THEN d.kind = "fail" /\ ~d.remain
     ELSE /\ kept = Keeps(x, N)
          /\ d.remain = (kept # {})
          /\ d.kind = "rows" => Len(d.rows) = Cardinality(kept)
          \* an explicit row set says nothing about rows outside the sample
          /\ x.kind \in {"all", "oall"} => d.kind # "rows"
Good(s, e) ==
  CASE e.op = "leaf" -> e.o = "ok"
    [] e.op \in {"and", "or", "in", "notin"} ->
         /\ e.o = IF New(s, e).kind = "err" THEN "err" ELSE "ok"
         /\ (e.op \in {"in", "notin"} /\ e.o = "ok") => ~e.nul
    [] e.op = "look" -> e.o = "ok" /\ Shows(s.node[e.a], e, s.n)
    [] e.op = "plain" -> e.o = "ok" /\ Shows(All, e, s.n)
    [] OTHER -> FALSE
Step(s, e) ==
  IF e.op \in {"leaf", "and", "or", "in", "notin"}
  THEN [s EXCEPT !.node = Append(@, IF New(s, e).kind = "err" THEN All ELSE New(s, e))]
  ELSE s

Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
