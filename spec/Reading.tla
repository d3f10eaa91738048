------------------------------ MODULE Reading ------------------------------
\* What a read returns: rows of files written under different schemas, without the
\* rows hidden by deletion vectors, merged by key in primary-key tables, selected by
\* a predicate, by partitions and by a bucket.
\*
\* A value is <<>> (null) or <<n>>; a row maps the identities of fields to values; a
\* field that a row does not have reads as null.  A file is [p, b, rows, del]: the
\* values of the partition fields, the bucket, the rows and the hidden positions.
\* A table is [pk, engine, key, pids, fields, files], oldest file first; engine is the
\* merge engine of a primary-key table.
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[j] : j \in DOMAIN s}
Get(row, f) == IF f \in DOMAIN row THEN row[f] ELSE <<>>

\* ---- predicates, with three truth values
Yes == 1
No == 0
Unknown == 2
Bit(b) == IF b THEN Yes ELSE No
Not(x) == IF x = Unknown THEN Unknown ELSE 1 - x
Both(X) == IF No \in X THEN No ELSE IF Unknown \in X THEN Unknown ELSE Yes
Either(X) == IF Yes \in X THEN Yes ELSE IF Unknown \in X THEN Unknown ELSE No
Leaf(op, v, x) ==
  CASE op = "isnull" -> Bit(x = <<>>)
    [] op = "notnull" -> Bit(x # <<>>)
    [] x = <<>> -> Unknown
    [] op = "eq" -> Bit(x[1] = v[1])
    [] op = "ne" -> Bit(x[1] # v[1])
    [] op = "lt" -> Bit(x[1] < v[1])
    [] op = "le" -> Bit(x[1] <= v[1])
    [] op = "gt" -> Bit(x[1] > v[1])
    [] op = "ge" -> Bit(x[1] >= v[1])
    [] op = "in" -> Bit(x[1] \in Range(v))
    [] op = "notin" -> Bit(x[1] \notin Range(v))
    [] op = "between" -> Bit(v[1] <= x[1] /\ x[1] <= v[2])
RECURSIVE Eval(_, _)
Eval(row, p) ==
  CASE p.t = "all" -> Yes
    [] p.t = "leaf" -> Leaf(p.op, p.v, Get(row, p.f))
    [] p.t = "and" -> Both({Eval(row, c) : c \in Range(p.c)})
    [] p.t = "or" -> Either({Eval(row, c) : c \in Range(p.c)})
    [] p.t = "not" -> Not(Eval(row, p.c[1]))
Holds(row, p) == Eval(row, p) = Yes
RECURSIVE FieldsOf(_)
FieldsOf(p) == CASE p.t = "all" -> {} [] p.t = "leaf" -> {p.f} [] OTHER -> UNION {FieldsOf(c) : c \in Range(p.c)}

\* ---- rows
Shown(file) == {j \in DOMAIN file.rows : j \notin file.del}
\* the rows of the files with numbers N: pairs <<file, position>>
Live(t, N) == UNION {{<<n, j>> : j \in Shown(t.files[n])} : n \in N}
At(t, q) == t.files[q[1]].rows[q[2]]
\* the rows of one key, oldest first, become one row
Later(a, b) == [f \in DOMAIN a \cup DOMAIN b |-> IF Get(b, f) = <<>> THEN Get(a, f) ELSE Get(b, f)]
RECURSIVE Overlay(_)
Overlay(rows) == IF Len(rows) = 1 THEN rows[1]
                 ELSE Later(Overlay(SubSeq(rows, 1, Len(rows) - 1)), rows[Len(rows)])
Merged(engine, rows) == CASE engine = "first-row" -> rows[1]
                          [] engine = "partial-update" -> Overlay(rows)
                          [] OTHER -> rows[Len(rows)]
SameKey(t, a, b) == At(t, a)[t.key] = At(t, b)[t.key] /\ t.files[a[1]].p = t.files[b[1]].p
Newest(t, N) == LET L == Live(t, N) IN {q \in L : ~\E r \in L : SameKey(t, q, r) /\ r[1] > q[1]}
\* what is read of the files with numbers N: a set of positions, and the row of each
Current(t, N) == IF t.pk THEN Newest(t, N) ELSE Live(t, N)
RECURSIVE OldestFirst(_, _)
OldestFirst(t, L) == IF L = {} THEN <<>>
                     ELSE LET q == CHOOSE x \in L : \A y \in L : x[1] <= y[1] IN <<At(t, q)>> \o OldestFirst(t, L \ {q})
View(t, N, q) == IF ~t.pk \/ t.engine = "deduplicate" THEN At(t, q)
                 ELSE Merged(t.engine, OldestFirst(t, {r \in Live(t, N) : SameKey(t, q, r)}))
\* a batch of a primary-key table becomes a file in key order with one row for each key
RECURSIVE ByKey(_, _, _, _)
ByKey(rows, key, engine, n) ==
  IF n < 0 THEN <<>>
  ELSE LET H == SelectSeq(rows, LAMBDA r : r[key] = <<n>>) IN
       ByKey(rows, key, engine, n - 1) \o (IF H = <<>> THEN <<>> ELSE <<Merged(engine, H)>>)
Stored(t, rows) == IF t.pk THEN ByKey(rows, t.key, t.engine, 60) ELSE rows
Kept(t, parts, bucket) ==
  {n \in DOMAIN t.files :
     /\ parts = <<>> \/ \E q \in Range(parts) : \A d \in Range(q) : t.files[n].p[d.i] = d.v
     /\ bucket = <<>> \/ t.files[n].b = bucket[1]}
=============================================================================
