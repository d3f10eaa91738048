------------------------------- MODULE Merge -------------------------------
(* What a primary-key table holds: for every key the table's merge rule     *)
(* applied to all records written for the key, in order.                    *)
(* A value is <<>> (null) or <<n>>; a record has a kind k, the values f of  *)
(* the fields that are not part of the key, and its place n in write order. *)
(* A rule c has                                                             *)
(*   engine  "dedup", "first", "agg" or "partial"                           *)
(*   ign     deletes are ignored                                            *)
(*   seq     fields that order the records (write order if empty), asc: up  *)
(*   agg     function of each field, "" for none;  ir: ignores retractions  *)
(*   grp     group of each field, 0 for none;  keys: the fields that order  *)
(*           the records of each group                                      *)
(*   rod     a delete removes the record                                    *)
EXTENDS Integers, Sequences, FiniteSets

Retract(r) == r.k \in {"-U", "-D"}
None == [o |-> "none"]
Err == [o |-> "err"]
Row(r) == [o |-> "row", r |-> r]

\* order of records ---------------------------------------------------------
RECURSIVE Cmp(_, _, _, _)
\* nulls come first in both directions
Cmp(fs, asc, a, b) ==
  IF fs = <<>> THEN 0
  ELSE LET x == a[fs[1]] y == b[fs[1]] IN
       IF x = y THEN Cmp(Tail(fs), asc, a, b)
       ELSE IF x = <<>> THEN -1 ELSE IF y = <<>> THEN 1
       ELSE IF (x[1] < y[1]) = asc THEN -1 ELSE 1
Before(c, a, b) == LET d == Cmp(c.seq, c.asc, a.f, b.f) IN d < 0 \/ (d = 0 /\ a.n < b.n)
RECURSIVE InsertR(_, _, _), SortR(_, _)
InsertR(c, s, r) == IF s = <<>> THEN <<r>>
                    ELSE IF Before(c, s[Len(s)], r) THEN Append(s, r)
                    ELSE Append(InsertR(c, SubSeq(s, 1, Len(s) - 1), r), s[Len(s)])
SortR(c, s) == IF s = <<>> THEN <<>> ELSE InsertR(c, SortR(c, SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

\* functions of a field -----------------------------------------------------
\* the second component tells a first value that was null from none
Agg(fn, acc, in, first) ==
  CASE fn \in {"", "last_value"} -> in
    [] fn = "last_non_null_value" -> IF in = <<>> THEN acc ELSE in
    [] fn = "first_value" -> IF first THEN in ELSE acc
    [] fn = "first_non_null_value" -> IF acc = <<>> THEN in ELSE acc
    [] acc = <<>> -> in
    [] in = <<>> -> acc
    [] fn = "sum" -> <<acc[1] + in[1]>>
    [] fn \in {"min", "bool_and"} -> IF in[1] < acc[1] THEN in ELSE acc
    [] fn \in {"max", "bool_or"} -> IF in[1] > acc[1] THEN in ELSE acc
\* a retraction: <<ok, value>>
Undo(fn, ir, acc, in) ==
  CASE ir -> <<TRUE, acc>>
    [] fn = "last_value" -> <<TRUE, <<>>>>
    [] fn = "last_non_null_value" -> <<TRUE, IF in = <<>> THEN acc ELSE <<>>>>
    [] fn = "sum" -> <<TRUE, IF in = <<>> THEN acc ELSE IF acc = <<>> THEN <<0 - in[1]>> ELSE <<acc[1] - in[1]>>>>
    [] OTHER -> <<FALSE, <<>>>>

\* engines ------------------------------------------------------------------
\* (the same sequence; evaluated at once)
Now(s) == <<>> \o s
Nulls(c) == [i \in DOMAIN c.agg |-> <<>>]
Dedup(c, s) == LET t == SelectSeq(s, LAMBDA r : ~(c.ign /\ Retract(r))) IN
               IF t = <<>> THEN None ELSE Row(t[Len(t)])
First(c, s) == LET t == SelectSeq(s, LAMBDA r : ~Retract(r)) IN
               IF ~c.ign /\ Len(t) < Len(s) THEN Err
               ELSE IF t = <<>> THEN None ELSE Row(t[1])

FnOf(c, i) == IF \E j \in DOMAIN c.seq : c.seq[j] = i THEN "last_value"
              ELSE IF c.agg[i] = "" THEN "last_non_null_value" ELSE c.agg[i]
RECURSIVE AggFold(_, _, _, _)
AggFold(c, s, k, row) ==
  IF k > Len(s) THEN Row([k |-> "+I", f |-> row, n |-> s[Len(s)].n])
  ELSE IF Retract(s[k])
       THEN LET u == Now([i \in DOMAIN row |-> Undo(FnOf(c, i), c.ir[i], row[i], s[k].f[i])]) IN
            IF \E i \in DOMAIN row : ~u[i][1] THEN Err ELSE AggFold(c, s, k + 1, Now([i \in DOMAIN row |-> u[i][2]]))
       ELSE AggFold(c, s, k + 1, Now([i \in DOMAIN row |-> Agg(FnOf(c, i), row[i], s[k].f[i], \A j \in 1..k-1 : Retract(s[j]))]))

Grouped(c) == \E i \in DOMAIN c.grp : c.grp[i] > 0
IsKey(c, i) == c.grp[i] > 0 /\ \E j \in DOMAIN c.keys[c.grp[i]] : c.keys[c.grp[i]][j] = i
\* the record says nothing about the group
Silent(c, g, f) == \A j \in DOMAIN c.keys[g] : f[c.keys[g][j]] = <<>>
Newer(c, g, f, row) == Cmp(c.keys[g], TRUE, f, row) >= 0
Update(c, r, row) == [i \in DOMAIN row |->
  LET g == c.grp[i] in == r.f[i] IN
  IF g = 0 THEN IF in = <<>> THEN row[i] ELSE in
  ELSE IF Silent(c, g, r.f) THEN row[i]
  ELSE IF Newer(c, g, r.f, row)
       THEN IF IsKey(c, i) THEN in ELSE Agg(c.agg[i], row[i], in, TRUE)
       ELSE IF c.agg[i] = "" \/ IsKey(c, i) THEN row[i] ELSE Agg(c.agg[i], in, row[i], TRUE)]
Withdraw(c, r, row) == [i \in DOMAIN row |->
  LET g == c.grp[i] in == r.f[i] IN
  IF g = 0 \/ Silent(c, g, r.f) THEN <<TRUE, row[i]>>
  ELSE IF Newer(c, g, r.f, row)
       THEN IF IsKey(c, i) THEN <<TRUE, in>> ELSE IF c.agg[i] = "" THEN <<TRUE, <<>>>> ELSE Undo(c.agg[i], c.ir[i], row[i], in)
       ELSE IF c.agg[i] = "" \/ IsKey(c, i) THEN <<TRUE, row[i]>> ELSE Undo(c.agg[i], c.ir[i], row[i], in)]
RECURSIVE PartFold(_, _, _, _, _)
PartFold(c, s, k, row, del) ==
  IF k > Len(s) THEN Row([k |-> IF del THEN "-D" ELSE "+I", f |-> row, n |-> s[Len(s)].n])
  ELSE IF ~Retract(s[k]) THEN PartFold(c, s, k + 1, Now(Update(c, s[k], row)), FALSE)
  ELSE IF Grouped(c) THEN LET u == Now(Withdraw(c, s[k], row)) IN
                          IF \E i \in DOMAIN row : ~u[i][1] THEN Err
                          ELSE PartFold(c, s, k + 1, Now([i \in DOMAIN row |-> u[i][2]]), FALSE)
  ELSE IF c.rod THEN PartFold(c, s, k + 1, Nulls(c), TRUE)
  ELSE Err
Partial(c, s) ==
  LET t == SelectSeq(s, LAMBDA r : ~(Retract(r) /\ (c.ign \/ (c.rod /\ r.k = "-U")))) IN
  IF t = <<>> THEN None ELSE PartFold(c, t, 1, Nulls(c), FALSE)

\* the records of one key, merged; a record that is alone stays as it is
Merge(c, recs) ==
  LET s == SortR(c, recs) IN
  CASE s = <<>> -> None
    [] Len(s) = 1 -> Row(s[1])
    [] c.engine = "dedup" -> Dedup(c, s)
    [] c.engine = "first" -> First(c, s)
    [] c.engine = "agg" -> AggFold(c, s, 1, Nulls(c))
    [] c.engine = "partial" -> Partial(c, s)
\* what a reader sees of it
Seen(m) == IF m.o = "row" THEN IF Retract(m.r) THEN [o |-> "none"] ELSE [o |-> "row", f |-> m.r.f] ELSE m

\* The rules, and the records under them, for which the result is to be the
\* same however the records are spread over batches, flushes and files.
Commutes == {"sum", "min", "max", "bool_and", "bool_or"}
Grows(c, i) == c.agg[i] = "sum" \/ (c.ir[i] /\ c.agg[i] \in Commutes \cup {"first_non_null_value"})
Refuses(c, i) == ~c.ir[i] /\ c.agg[i] \in {"first_value", "first_non_null_value", "min", "max", "bool_and", "bool_or"}
Supported(c) ==
  CASE c.engine = "dedup" -> TRUE
    [] c.engine = "first" -> c.seq = <<>>
    [] c.engine = "agg" -> c.seq = <<>> \/ \A i \in DOMAIN c.agg : (\A j \in DOMAIN c.seq : c.seq[j] # i) => c.agg[i] \in Commutes \cup {"last_value"}
    [] c.engine = "partial" -> c.seq = <<>> /\ \A i \in DOMAIN c.agg : c.grp[i] > 0 => c.agg[i] \in Commutes \cup {"", "last_value"}
\* whether retractions may be written
Retracts(c) ==
  CASE c.engine \in {"dedup", "first"} -> TRUE
    [] c.engine = "agg" -> c.seq = <<>> /\ ((\A i \in DOMAIN c.agg : Grows(c, i)) \/ \E i \in DOMAIN c.agg : Refuses(c, i))
    [] c.engine = "partial" -> ~Grouped(c) \/ (~c.ign /\ \A i \in DOMAIN c.agg : (c.grp[i] > 0 /\ ~IsKey(c, i)) => c.agg[i] = "" \/ Grows(c, i))
\* a record that may follow those of its key that wait for the same flush:
\* where a delete removes the record, what is written after it would hide it
Fits(c, waiting, r) == (Retract(r) => Retracts(c)) /\ ((c.rod /\ ~Retract(r)) => \A i \in DOMAIN waiting : waiting[i].k # "-D")
=============================================================================
