---------------------------- MODULE ReadingTrace ----------------------------
EXTENDS Trace, Reading
Start(in) == [pk |-> in.pk, engine |-> in.engine, key |-> in.key, pids |-> in.pids, fields |-> in.fields, files |-> <<>>, old |-> <<in.fields>>]
RowOf(fields, f) == [x \in Range(fields) |-> f[CHOOSE j \in DOMAIN fields : fields[j] = x]]
FileOf(s, g) == [p |-> g.p, b |-> g.b, del |-> {},
                 rows |-> TLCEval(Stored(s, [j \in DOMAIN g.rows |-> RowOf(s.fields, g.rows[j])]))]
Part(row, cols) == [j \in DOMAIN cols |-> Get(row, cols[j])]
Count(rows, r) == Cardinality({j \in DOMAIN rows : rows[j] = r})
\* rows: the sequence returned; Q: the rows expected, as a set of positions; all: the row of each position
SameBag(rows, Q, all, cols) ==
  LET want == TLCEval([q \in Q |-> Part(all[q], cols)]) IN
  /\ Len(rows) = Cardinality(Q)
  /\ \A r \in Range(rows) : Count(rows, r) = Cardinality({q \in Q : want[q] = r})
Within(rows, all, cols) ==
  LET has == TLCEval([q \in DOMAIN all |-> Part(all[q], cols)]) IN
  \A r \in Range(rows) : Count(rows, r) <= Cardinality({q \in DOMAIN all : has[q] = r})
GoodRead(s, e) ==
  LET N == Kept(s, e.parts, e.bucket)
      all == TLCEval([q \in Current(s, N) |-> View(s, N, q)])
      want == {q \in DOMAIN all : Holds(all[q], e.pred)}
      fits(r) == Holds(RowOf(e.cols, r), e.pred)
  IN  /\ FieldsOf(e.pred) \subseteq Range(e.cols)
      /\ \A j \in DOMAIN e.rows : Len(e.rows[j]) = Len(e.cols)
      /\ IF e.exact THEN SameBag(e.rows, want, all, e.cols)
         ELSE SameBag(SelectSeq(e.rows, fits), want, all, e.cols) /\ (s.pk \/ Within(e.rows, all, e.cols))
Good(s, e) ==
  CASE e.op = "commit" -> e.o = "ok"
    [] e.op = "hide" -> e.o = "ok" /\ e.now = Cardinality(s.files[e.file].del \cup Range(e.pos))
    [] e.op = "alter" -> e.o = "ok"
    [] e.op = "schemas" -> e.o = "ok" /\ e.latest = Len(s.old) - 1 /\ Range(e.ids) = 0..(Len(s.old) - 1)
                           /\ Len(e.ids) = Len(s.old) /\ e.of = s.old
    [] e.op = "again" -> e.o = "err"
    [] e.op = "read" -> e.o = "ok" /\ GoodRead(s, e)
    [] OTHER -> FALSE
RECURSIVE Add(_, _)
Add(s, gs) == IF gs = <<>> THEN s ELSE Add([s EXCEPT !.files = Append(@, FileOf(s, gs[1]))], Tail(gs))
Step(s, e) ==
  CASE e.op = "commit" -> Add(s, e.files)
    [] e.op = "hide" -> [s EXCEPT !.files[e.file].del = @ \cup Range(e.pos)]
    [] e.op = "alter" -> [s EXCEPT !.fields = e.fields, !.old = Append(@, e.fields)]
    [] OTHER -> s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
