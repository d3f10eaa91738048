---------------------------- MODULE BitmapTrace ----------------------------
EXTENDS Trace, Bitmap

Start(init) == [n |-> init.n, size |-> init.size, b |-> [s \in 0..(init.slots - 1) |-> {}]]

\* the slots an event reads must hold a value
Set(q) == Range(q)

Effect(s, e) ==
  LET B == s.b IN
  CASE e.op = "fresh" -> [B EXCEPT ![e.s] = {}]
    [] e.op \in {"add", "cadd"} -> [B EXCEPT ![e.s] = @ \cup {e.a}]
    [] e.op = "addr" -> [B EXCEPT ![e.s] = @ \cup Set(e.as)]
    [] e.op = "remr" -> [B EXCEPT ![e.s] = @ \ Set(e.as)]
    [] e.op = "flip" -> [B EXCEPT ![e.s] = Flip(@, Set(e.as))]
    [] e.op = "ior" -> [B EXCEPT ![e.s] = @ \cup B[e.s2]]
    [] e.op = "iand" -> [B EXCEPT ![e.s] = @ \cap B[e.s2]]
    [] e.op = "isub" -> [B EXCEPT ![e.s] = @ \ B[e.s2]]
    [] e.op = "and" -> [B EXCEPT ![e.d] = B[e.s] \cap B[e.s2]]
    [] e.op = "or" -> [B EXCEPT ![e.d] = B[e.s] \cup B[e.s2]]
    [] e.op = "andnot" -> [B EXCEPT ![e.d] = B[e.s] \ B[e.s2]]
    [] e.op = "union" -> [B EXCEPT ![e.d] = UNION {B[x] : x \in Set(e.ss)}]
    [] e.op \in {"copyassign", "copynew", "saveload"} -> [B EXCEPT ![e.d] = B[e.s]]
    [] e.op \in {"moveassign", "movenew"} ->
         IF e.d = e.s THEN B ELSE [B EXCEPT ![e.d] = B[e.s], ![e.s] = Moved]
    [] e.op \in {"from", "from32"} -> [B EXCEPT ![e.d] = Set(e.as)]
    [] OTHER -> B

Answer(s, e) ==
  LET B == s.b IN
  CASE e.op = "cadd" -> e.r = (e.a \notin B[e.s])
    [] e.op = "any" -> e.r = (B[e.s] \cap Set(e.as) # {})
    [] e.op = "has" -> e.r = (e.a \in B[e.s])
    [] e.op = "eq" -> e.r = (B[e.s] = B[e.s2]) /\ e.rev = e.r
    [] e.op = "list" -> /\ e.g = Listing(B[e.s], s.size)
                        /\ e.card = SumSize(B[e.s], s.size)
                        /\ e.empty = (B[e.s] = {})
    [] e.op = "text" -> e.g = Listing(B[e.s], s.size) /\ (e.big => SumSize(B[e.s], s.size) > 60)
    [] e.op = "seek" -> /\ e.got = Walk(B[e.s], AtOrAfter(B[e.s], e.a, e.off), e.nxt, s.size)
                        /\ e.same
    [] e.op = "saveload" -> e.sz = e.rep /\ e.used = e.sz
    [] OTHER -> TRUE

Good(s, e) == IF e.op = "trunc" THEN e.o = "err" ELSE e.o = "ok" /\ Answer(s, e)
Step(s, e) == [s EXCEPT !.b = Effect(s, e)]

Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
