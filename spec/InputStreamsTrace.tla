-------------------------- MODULE InputStreamsTrace --------------------------
(* The positions reported are the sequence's positions except far ones.     *)
(* top: kind of the topmost stream; soft: it reads short at the end.        *)
EXTENDS Trace, InputStreams
Start(init) == [s |-> Stream(init.n), top |-> init.kind, soft |-> init.soft, little |-> FALSE]
Cap(n) == IF n > 64 THEN 64 ELSE n
Left(s) == s.len - s.pos
\* what a request for n bytes at p may deliver
Delivers(x, p, n, e) ==
  /\ e.o = "ok"
  /\ LET m == IF x.soft /\ p + n > x.s.len THEN x.s.len - p ELSE n IN
       e.n = m /\ e.b = Content(x.s, p, Cap(m))
Far(v) == v >= 2000000000 \/ v <= -2000000000
\* after a refused read a buffered stream may have advanced, but not beyond the end
Refused(x, e) == /\ e.o = "err"
                 /\ IF x.top = "buf" THEN e.pos >= x.s.pos /\ e.pos <= x.s.len ELSE e.pos = x.s.pos
TypedRefused(x, e, moved) == /\ e.o = "err"
                 /\ IF x.top = "buf" THEN e.pos >= x.s.pos /\ e.pos <= x.s.len ELSE e.pos \in {x.s.pos} \cup moved
Have(x, n) == x.s.pos + n <= x.s.len
StrLen(x) == LET q == Ordered(Content(x.s, x.s.pos, 2), x.little) IN q[1] * 256 + q[2]
Good(x, e) ==
  CASE e.op = "buffer" -> e.o = "ok" /\ e.len = x.s.len /\ e.pos = x.s.pos
    [] e.op = "window" ->
         IF ~Far(e.len) /\ GoodWindow(x.s, e.off, e.len)
         THEN e.o = "ok" /\ e.wlen = Window(x.s, e.off, e.len).len /\ e.pos = 0
         ELSE e.o = "err"
    [] e.op = "seek" ->
         LET p == Target(x.s, e.off, e.from) IN
         IF ~Far(e.off) /\ Inside(x.s, p, 0) THEN e.o = "ok" /\ e.pos = p
         ELSE e.o = "err" /\ e.pos = x.s.pos
    [] e.op = "read" ->
         IF Have(x, e.size) THEN e.o = "ok" /\ e.n = e.size /\ e.b = Content(x.s, x.s.pos, Cap(e.size)) /\ e.pos = x.s.pos + e.size
         ELSE IF x.soft THEN Delivers(x, x.s.pos, e.size, e) /\ e.pos = x.s.len
         ELSE Refused(x, e)
    [] e.op = "pread" ->
         /\ e.calls = 1 /\ e.pos = x.s.pos
         /\ IF x.top = "buf" THEN e.o = "err"     \* not offered by buffered streams
            ELSE IF ~Far(e.off) /\ Inside(x.s, e.off, e.size)
                 THEN e.o = "ok" /\ e.n = e.size /\ e.b = Content(x.s, e.off, Cap(e.size))
            ELSE x.soft \/ e.o = "err"
    [] e.op = "order" -> e.o = "ok"
    [] e.op = "value" ->
         IF Have(x, e.w) THEN e.o = "ok" /\ e.v = Ordered(Content(x.s, x.s.pos, e.w), x.little) /\ e.pos = x.s.pos + e.w
         ELSE TypedRefused(x, e, {})
    [] e.op = "bytes" ->
         IF Have(x, e.size) THEN e.o = "ok" /\ e.b = Content(x.s, x.s.pos, Cap(e.size)) /\ e.pos = x.s.pos + e.size
         ELSE TypedRefused(x, e, {})
    [] e.op = "string" ->
         IF ~Have(x, 2) THEN TypedRefused(x, e, {})
         ELSE IF ~Have(x, 2 + StrLen(x)) THEN TypedRefused(x, e, {x.s.pos + 2})
         ELSE e.o = "ok" /\ e.n = StrLen(x) /\ e.b = Content(x.s, x.s.pos + 2, Cap(e.n)) /\ e.pos = x.s.pos + 2 + e.n
    [] e.op = "ask" -> e.o = "ok" /\ e.len = x.s.len /\ e.len2 = x.s.len /\ e.pos = x.s.pos /\ e.pos2 = x.s.pos /\ e.uri
    [] e.op = "raw" -> e.o = "ok" /\ e.b = (IF x.s.pos < x.s.len THEN Byte(x.s.off + x.s.pos) ELSE -1)
    [] OTHER -> FALSE
Step(x, e) ==
  CASE e.op = "buffer" -> [x EXCEPT !.top = "buf", !.soft = FALSE]
    [] e.op = "window" -> IF e.o = "ok" THEN [x EXCEPT !.s = Window(x.s, e.off, e.len), !.top = "window", !.soft = FALSE] ELSE x
    [] e.op = "order" -> [x EXCEPT !.little = e.little]
    [] "pos" \in DOMAIN e -> [x EXCEPT !.s.pos = e.pos]
    [] OTHER -> x
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
