--------------------------- MODULE MessagesTrace ---------------------------
EXTENDS Trace, Messages
Start(in) == 0
Jsons(e) == {e.json[j] : j \in DOMAIN e.json}
Good(s, e) ==
  CASE e.op = "message" ->
         IF e.version < Oldest \/ e.version > Current THEN e.o = "err"
         ELSE e.o = "ok" /\ e.bytes = MessageBytes(e.version, e.m) /\ e.back = MessageBack(e.version, e.m)
    [] e.op = "messages" ->
         e.o = "ok" /\ e.bytes = ListOf([j \in DOMAIN e.ms |-> MessageBytes(Current, e.ms[j])]) /\ e.back = e.ms
    [] e.op = "split" -> e.o = "ok" /\ e.bytes = SplitBytes(e.version, e.s) \o e.extra /\ e.back = SplitBack(e.version, e.s)
                         /\ e.fallback = IF e.extra = <<>> THEN <<>> ELSE <<e.extra[1] # 0>>
    [] e.op = "indexed" -> e.o = "ok" /\ e.bytes = IndexedBytes(e.s, e.ranges, e.scores) /\ e.back = e.s
                           /\ e.ranges2 = e.ranges /\ e.scores2 = e.scores
    [] e.op = "entry" -> e.o = "ok" /\ e.bytes = RowBytes(0, e.f) /\ e.back = e.f
    [] e.op = "damaged" -> e.o = "err"
    (* every field that is present is in the text and comes back; no other appears *)
    [] e.op = "snapshot" ->
         /\ e.o = "ok" /\ e.back = e.f
         /\ \A j \in DOMAIN e.f : e.f[j][2] # <<>> => <<e.f[j][1], e.f[j][2]>> \in Jsons(e)
         /\ \A x \in Jsons(e) : x[2] # <<>> => \E j \in DOMAIN e.f : <<e.f[j][1], e.f[j][2]>> = x
         /\ \A x, y \in Jsons(e) : x[1] = y[1] => x = y
    [] OTHER -> FALSE
Step(s, e) == s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
