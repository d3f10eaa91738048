---------------------------- MODULE MemoryTrace ----------------------------
EXTENDS Trace, Memory, Murmur
Start(init) == <<init.a, init.b>>
\* values are native (little-endian) numbers given by their big-endian bytes
Good(s, e) ==
  CASE e.op = "get" -> e.o = "ok" /\ e.q = Get(s[e.m], e.off, e.n)
    [] e.op = "put" -> e.o = "ok" /\ e.mem = Put(s[e.m], e.off, e.q)
    [] e.op = "getv" -> e.o = "ok" /\ e.v = Rev(Get(s[e.m], e.off, e.w))
    [] e.op = "setv" -> e.o = "ok" /\ e.mem = Put(s[e.m], e.off, Rev(e.v))
    [] e.op = "getbool" -> e.o = "ok" /\ e.v = (s[e.m][e.off + 1] # 0)
    [] e.op = "bitget" -> e.o = "ok" /\ e.v = BitAt(s[e.m], e.off, e.k)
    [] e.op = "bitset" -> e.o = "ok" /\ e.mem = WithBit(s[e.m], e.off, e.k, e.on)
    [] e.op = "equals" -> e.o = "ok" /\ e.v = (Get(s[1], e.o1, e.n) = Get(s[2], e.o2, e.n))
    [] e.op = "section" ->
         LET p == Get(s[1], e.o1, e.n) q == Get(s[2], e.o2, e.n2) IN
         e.o = "ok" /\ e.v = (p = q) /\ e.bytes = p /\ e.h = Hash(p)
    [] e.op = "find" ->
         LET p == Get(s[1], e.o1, e.n) q == Get(s[2], e.o2, e.n2) f == FindBytes(p, q) IN
         e.o = "ok" /\ e.v = (IF f = -1 THEN -1 ELSE e.o1 + f)
    [] e.op = "hash" -> e.o = "ok" /\ e.h = Hash(Get(s[e.m], e.off, e.n))
    [] e.op = "cmp" -> e.o = "ok" /\ e.v = CompareBytes(Get(s[1], e.o1, e.n), Get(s[2], e.o2, e.n2))
    [] e.op = "copy" -> e.o = "ok" /\ e.mem = Put(s[2], e.o2, Get(s[1], e.o1, e.n))
    [] e.op = "swap" -> e.o = "ok" /\ e.mem = Put(s[1], e.o1, Get(s[2], e.o2, e.n))
                                   /\ e.mem2 = Put(s[2], e.o2, Get(s[1], e.o1, e.n))
    [] e.op = "stream" -> IF e.off + e.n <= Len(s[e.m]) THEN e.o = "ok" /\ e.q = Get(s[e.m], e.off, e.n) ELSE e.o = "err"
    [] e.op = "binary" -> e.o = "ok" /\ e.q = Get(s[e.m], e.at, e.n)
    [] e.op = "bytes" -> /\ e.o = "ok" /\ e.c = CompareBytes(e.p, e.q) /\ e.eq = (e.p = e.q) /\ e.lt = (e.c < 0)
                         /\ e.cp = e.p \o [k \in 1..e.more |-> 0] /\ e.moved = e.p /\ e.left = 0
    [] OTHER -> FALSE
Step(s, e) ==
  CASE e.op \in {"put", "setv", "bitset"} -> [s EXCEPT ![e.m] = e.mem]
    [] e.op = "copy" -> [s EXCEPT ![2] = e.mem]
    [] e.op = "swap" -> <<e.mem, e.mem2>>
    [] OTHER -> s
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
