----------------------------- MODULE MergeTrace -----------------------------
EXTENDS Trace, Merge
Start(in) == [c |-> in, n |-> 0, recs |-> <<>>]
Of(s, k) == IF k \in DOMAIN s.recs THEN s.recs[k] ELSE <<>>
RECURSIVE Put(_, _)
Put(s, rs) == IF rs = <<>> THEN s
              ELSE LET r == [k |-> rs[1].k, f |-> rs[1].f, n |-> s.n + 1] k == rs[1].key IN
                   Put([s EXCEPT !.n = @ + 1, !.recs = (k :> Append(Of(s, k), r)) @@ @], Tail(rs))
Broken(s) == \E k \in DOMAIN s.recs : Merge(s.c, s.recs[k]).o = "err"
SeenOf(s, k) == Seen(Merge(s.c, s.recs[k]))
Shown(s) == {k \in DOMAIN s.recs : SeenOf(s, k).o = "row"}
Part(s, k, e) == [key |-> IF e.key THEN k ELSE 0, f |-> [j \in DOMAIN e.cols |-> SeenOf(s, k).f[e.cols[j]]]]
SameBag(s, e) ==
  LET S == Shown(s) want == TLCEval([k \in S |-> Part(s, k, e)]) IN
  /\ Len(e.rows) = Cardinality(S)
  /\ \A t \in Range(e.rows) \cup {want[k] : k \in S} :
       Cardinality({j \in DOMAIN e.rows : e.rows[j] = t}) = Cardinality({k \in S : want[k] = t})
\* a read of some columns need not notice that the others refuse a retraction
Only(s, e) == [s EXCEPT !.c.ir = [j \in DOMAIN @ |-> @[j] \/ \A x \in DOMAIN e.cols : e.cols[x] # j]]
Good(s, e) ==
  CASE e.op = "write" -> IF e.o = "ok" THEN TRUE ELSE e.o = "err" /\ Broken(Put(s, e.recs))
    [] e.op = "commit" -> e.o = "ok" \/ (e.o = "err" /\ Broken(s))
    [] e.op = "read" -> IF Broken(Only(s, e)) THEN e.o = "err"
                        ELSE IF e.o = "err" THEN Broken(s) ELSE e.o = "ok" /\ SameBag(Only(s, e), e)
    [] OTHER -> FALSE
Step(s, e) == IF e.op = "write" THEN Put(s, e.recs) ELSE s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
