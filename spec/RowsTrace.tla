----------------------------- MODULE RowsTrace -----------------------------
EXTENDS Trace, Rows, Murmur
Start(in) == 0
Pick(F, m) == [j \in DOMAIN m |-> IF m[j][1] = 0 THEN [F[1] EXCEPT !.t = m[j][2], !.v = <<>>] ELSE F[m[j][1]]]
Good(s, e) ==
  CASE e.op = "row" -> LET q == RowBytes(e.kind, e.f) IN
         /\ e.o = "ok" /\ e.bytes = q /\ e.hash = Hash(q) /\ e.any = AnyNull(e.f) /\ e.seen = e.f /\ e.k = e.kind
         /\ e.copy = q /\ e.back = e.f
         /\ e.packed = Be4(Len(q)) \o q /\ e.packed2 = Be4(Len(e.f)) \o q
    [] e.op = "set" -> e.o = "ok" /\ e.bytes = RowBytes(e.kind, e.g) /\ e.seen = e.g
    [] e.op = "same" -> e.o = "ok" /\ e.eq = (e.xk = e.yk /\ e.x = e.y)
    [] e.op = "array" -> LET q == ArrBytes(e.w, e.f) IN
         e.o = "ok" /\ e.bytes = q /\ e.any = AnyNull(e.f) /\ e.seen = e.f /\ e.n = Len(e.f) /\ e.copy = q /\ e.hash = Hash(q)
    [] e.op = "numbers" -> IF AnyNull(e.f) THEN e.o = "err" ELSE e.o = "ok" /\ e.seen = e.f
    [] e.op = "view" -> e.o = "ok" /\ e.seen = Pick(e.f, e.m) /\ e.n = Len(e.m)
    [] e.op = "bucket" ->
         IF e.n = 1 \/ e.n = -1 THEN e.o = "ok" /\ \A j \in DOMAIN e.rows : e.ids[j] = 0
         ELSE IF e.n = -2 THEN e.o = "ok" /\ \A j \in DOMAIN e.rows : e.ids[j] = -2
         ELSE e.o = "ok" /\ Len(e.ids) = Len(e.rows) /\ \A j \in DOMAIN e.rows : e.ids[j] = Bucket(Hash(RowBytes(0, e.rows[j])), e.n)
    [] e.op = "refused" -> e.o = IF e.n = 0 \/ e.n < -2 \/ (e.pk /\ e.n = -1) \/ (~e.pk /\ e.n = -2) THEN "err" ELSE "ok"
    [] OTHER -> FALSE
Step(s, e) == s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
