---------------------------- MODULE LinkedMapTrace ----------------------------
(* Two maps a and b; every event carries what both maps show after it.            *)
EXTENDS Trace, LinkedMap
Start(init) == [a |-> <<>>, b |-> <<>>]
Other(x) == IF x = "a" THEN "b" ELSE "a"

After(s, e) ==
  CASE e.op = "insert" -> [s EXCEPT ![e.m] = Insert(@, e.k, e.v)]
    [] e.op = "assign" -> [s EXCEPT ![e.m] = Assign(@, e.k, e.v)]
    [] e.op = "index_set" -> [s EXCEPT ![e.m] = Assign(@, e.k, e.v)]
    [] e.op = "index" -> [s EXCEPT ![e.m] = Insert(@, e.k, 0)]
    [] e.op = "erase" -> [s EXCEPT ![e.m] = Erase(@, e.k)]
    [] e.op = "erase_own" -> [s EXCEPT ![e.m] = Erase(@, e.k)]
    [] e.op \in {"copy", "copy_new"} -> [s EXCEPT ![Other(e.m)] = s[e.m]]
    [] OTHER -> s

Shows(m, d) ==
  /\ d.order = m
  /\ d.size = Len(m) /\ d.empty = (m = <<>>)
  /\ d.keys = [j \in DOMAIN m |-> m[j][1]]
  /\ Range(d.keyset) = KeysOf(m) /\ Len(d.keyset) = Len(m)
  /\ \A j \in DOMAIN d.found : d.found[j][2] = Lookup(m, d.found[j][1])

Good(s, e) ==
  LET t == After(s, e) IN
  /\ e.o = "ok"
  /\ Shows(t.a, e.a) /\ Shows(t.b, e.b)
  /\ e.eq = (t.a = t.b) /\ e.ne = (t.a # t.b)
  /\ e.op \in {"insert", "assign", "index", "index_set"} => e.r = <<e.k, Lookup(t[e.m], e.k)>>
  /\ e.op \in {"erase", "erase_own"} => e.r = AfterErase(s[e.m], e.k)

Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = After(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
