----------------------------- MODULE PoolTrace -----------------------------
(* One thread: st = [p |-> pool, live |-> sizes of live blocks by number]   *)
(* (0 - 1: not live).  Several threads: st = set of possible pools with     *)
(* calls in progress.                                                       *)
EXTENDS Trace, Pool
Start(init) == IF init.threads = 0
               THEN [p |-> Empty, live |-> [k \in 1..init.slots |-> -1]]
               ELSE {[p |-> Empty, th |-> [t \in 1..init.threads |-> [s |-> "none"]]]}
Rep(e) == [cur |-> e.cur, peak |-> e.peak]
SeqGood(s, e) ==
  /\ e.intact
  /\ CASE e.op = "malloc" -> IF e.fails THEN (e.o = "exc" \/ e.o = "err") /\ Rep(e) = s.p
                             ELSE e.o = "ok" /\ e.aligned /\ Rep(e) = Grow(s.p, e.size)
       [] e.op = "free" -> e.o = "ok" /\ Rep(e) = Shrink(s.p, s.live[e.b])
       [] e.op = "realloc" -> IF e.fails THEN (e.o = "exc" \/ e.o = "err") /\ Rep(e).cur = s.p.cur /\ Rep(e).peak = s.p.peak
                              ELSE /\ e.o = "ok" /\ e.aligned /\ e.kept
                                   /\ Rep(e) \in Resize(s.p, IF s.live[e.b] = -1 THEN 0 ELSE s.live[e.b], e.size)
       [] e.op = "bytes" -> IF e.fails THEN (e.o = "exc" \/ e.o = "err") /\ Rep(e).cur = s.p.cur /\ e.peak >= s.p.peak
                            ELSE e.o = "ok" /\ Rep(e) = Grow(s.p, e.size)
       [] e.op = "move" -> e.o = "ok" /\ Rep(e) = Shrink(s.p, s.live[e.to])
       [] OTHER -> FALSE
SeqStep(s, e) ==
  CASE e.op \in {"malloc", "realloc", "bytes"} -> IF e.fails THEN [s EXCEPT !.p = Rep(e)] ELSE [p |-> Rep(e), live |-> [s.live EXCEPT ![e.b] = e.size]]
    [] e.op = "free" -> [p |-> Rep(e), live |-> [s.live EXCEPT ![e.b] = -1]]
    [] e.op = "move" -> [p |-> Rep(e), live |-> [s.live EXCEPT ![e.to] = s.live[e.b], ![e.b] = 0]]
    [] OTHER -> s
\* ---- several threads
Effect(p, q) == CASE q.f = "add" -> {[p |-> Grow(p, q.d), r |-> 0]}
                  [] q.f = "sub" -> {[p |-> Shrink(p, q.d), r |-> 0]}
                  [] q.f = "resize" -> {[p |-> x, r |-> 0] : x \in Resize(p, q.old, q.d)}
                  [] q.f = "usage" -> {[p |-> p, r |-> p.cur]}
OneStep(c) == UNION {{[p |-> x.p, th |-> [c.th EXCEPT ![t] = [s |-> "done", r |-> x.r]]] : x \in Effect(c.p, c.th[t].q)}
                       : t \in {u \in DOMAIN c.th : c.th[u].s = "open"}}
\* a move to a second block takes effect in two steps: count the new one, then drop the old
HalfStep(c) == {[p |-> Grow(c.p, c.th[t].q.d), th |-> [c.th EXCEPT ![t] = [s |-> "open", q |-> [f |-> "sub", d |-> c.th[t].q.old]]]]
                  : t \in {u \in DOMAIN c.th : c.th[u].s = "open" /\ c.th[u].q.f = "resize"}}
RECURSIVE Closure(_)
Closure(C) == LET D == C \cup UNION {OneStep(c) \cup HalfStep(c) : c \in C} IN IF D = C THEN C ELSE Closure(D)
ConStep(C, e) ==
  CASE e.op = "inv" -> {[c EXCEPT !.th[e.t] = [s |-> "open", q |-> e.q]] : c \in C}
    [] e.op = "ret" -> {[c EXCEPT !.th[e.t] = [s |-> "none"]] : c \in {d \in Closure(C) : d.th[e.t].s = "done" /\ d.th[e.t].r = e.r}}
    [] e.op = "final" -> {c \in C : c.p = Rep(e)}
    [] OTHER -> {}
Single == Traces[tid].init.threads = 0
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Single
             THEN IF e.op # "cleanup" /\ e.o \in {"ok", "err", "exc"} /\ SeqGood(st, e) THEN bad' = FALSE /\ st' = SeqStep(st, e) ELSE bad' = TRUE /\ st' = st
             ELSE IF e.o = "ok" /\ ConStep(st, e) # {} THEN bad' = FALSE /\ st' = ConStep(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
