------------------------------- MODULE Shared -------------------------------
(* Sequential behaviour of the shared objects and what concurrent histories *)
(* may look like.  Results are lists of integers.                           *)
EXTENDS Integers, Sequences
Tup(a, b) == [o |-> a, r |-> b]
\* queue: list of values
QueueDo(q, p) ==
  CASE p.f = "push" -> Tup(Append(q, p.v), <<>>)
    [] p.f = "pop" -> IF q = <<>> THEN Tup(q, <<>>) ELSE Tup(Tail(q), <<Head(q)>>)
    [] p.f = "front" -> Tup(q, IF q = <<>> THEN <<>> ELSE <<Head(q)>>)
    [] p.f = "size" -> Tup(q, <<Len(q)>>)
    [] p.f = "empty" -> Tup(q, <<IF q = <<>> THEN 1 ELSE 0>>)
\* map and metrics: a value per name, 0 - 1 if absent
Absent == -1
MapDo(m, p) ==
  CASE p.f = "insert" -> Tup([m EXCEPT ![p.k] = p.v], <<>>)
    [] p.f = "find" -> Tup(m, IF m[p.k] = Absent THEN <<>> ELSE <<m[p.k]>>)
    [] p.f = "erase" -> Tup([m EXCEPT ![p.k] = Absent], <<>>)
    [] p.f = "count" -> Tup(m, <<Len(SelectSeq(m, LAMBDA x : x # Absent))>>)
    [] p.f = "all" -> Tup(m, m)
    [] p.f = "keys" -> Tup(m, [k \in DOMAIN m |-> IF m[k] = Absent THEN 0 ELSE 1])
    [] p.f = "merge" -> Tup([k \in DOMAIN m |-> IF p.other[k] = Absent THEN m[k]
                                                ELSE IF m[k] = Absent THEN p.other[k] ELSE m[k] + p.other[k]], <<>>)
    [] p.f = "overwrite" -> Tup(p.other, <<>>)
    [] p.f = "mergeself" -> Tup(m, <<>>)
Do(kind, o, p) == IF kind = "queue" THEN QueueDo(o, p) ELSE MapDo(o, p)

\* a configuration: the object and what each thread is doing
None == [s |-> "none"]
Open(p) == [s |-> "open", p |-> p]
Done(r) == [s |-> "done", r |-> r]
Invoke(C, t, p) == {[c EXCEPT !.th[t] = Open(p)] : c \in C}
\* some open operation takes effect
OneStep(kind, c) ==
  {LET d == Do(kind, c.o, c.th[t].p) IN [o |-> d.o, th |-> [c.th EXCEPT ![t] = Done(d.r)]]
     : t \in {u \in DOMAIN c.th : c.th[u].s = "open"}}
RECURSIVE Closure(_, _)
Closure(kind, C) ==
  LET D == C \cup UNION {OneStep(kind, c) : c \in C}
  IN IF D = C THEN C ELSE Closure(kind, D)
Return(kind, C, t, r) ==
  {[c EXCEPT !.th[t] = None] : c \in {d \in Closure(kind, C) : d.th[t] = Done(r)}}
=============================================================================
