------------------------- MODULE OutputStreamsTrace -------------------------
EXTENDS Trace, OutputStreams
\* out: bytes so far; log: values in the order written
Start(init) == [seg |-> init.seg, size |-> init.size, out |-> <<>>, log |-> <<>>, little |-> FALSE]
Bytes(s, e) == CASE e.op = "value" -> Value(e.v, s.little)
                 [] e.op = "string" -> Text(e.v, s.little)
                 [] e.op = "bytes" -> e.v
\* a sink that fails or takes fewer bytes must be reported; one with nothing to take cannot fail short
MustFail(s, e) == ~s.seg /\ (e.mode = 1 \/ (e.mode = 2 /\ Len(Bytes(s, e)) > 0))
Good(s, e) ==
  CASE e.op \in {"value", "string", "bytes"} -> e.o = IF MustFail(s, e) THEN "err" ELSE "ok"
    [] e.op = "order" -> e.o = "ok"
    [] e.op = "size" -> /\ e.o = "ok" /\ e.n = Len(s.out)
                        /\ s.seg => \/ e.inseg = Len(s.out) % s.size
                                    \/ (Len(s.out) % s.size = 0 /\ e.inseg = s.size)
    [] e.op = "content" -> e.o = "ok" /\ e.b = s.out /\ e.again
    [] e.op = "back" -> e.o = "ok" /\ e.v = s.log[e.k]
    [] e.op = "long" ->
         IF e.n > MaxText THEN e.o = "err" /\ e.size = 0      \* nothing of it is written
         ELSE /\ e.o = "ok" /\ e.size = e.n + 2 /\ e.same
              /\ e.head = TextHead(e.n, FALSE) \o <<97 + (e.n % 26)>>
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.op = "order" -> [s EXCEPT !.little = e.little]
    [] e.op \in {"value", "string", "bytes"} /\ e.o = "ok" ->
         [s EXCEPT !.out = @ \o Bytes(s, e), !.log = Append(@, e.v)]
    [] OTHER -> s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
