---------------------------- MODULE ResolveTrace ----------------------------
EXTENDS Trace, Resolve, Paths
Conf(s) == s.conf
Start(init) == [conf |-> [map |-> [k \in {x[1] : x \in Range(init.map)} |-> (CHOOSE x \in Range(init.map) : x[1] = k)[2]],
                          default |-> init.default, works |-> Range(init.works), flaky |-> Range(init.flaky)],
                s |-> [inst |-> <<>>, call |-> <<>>]]
Good(st1, e) == LET s == st1.s IN
  /\ e.o = "ok" \/ (e.o = "err" /\ e.op = "parse" /\ e.p = <<>>)
  /\ CASE e.op = "call" -> ~InCall(s, e.t)
       [] e.op = "make" -> MayMake(st1.conf, s, e.t, e.id, e.key) /\ e.same /\ (e.id \in st1.conf.flaky \/ e.ok = (e.id \in st1.conf.works))
       [] e.op = "pass" -> MayPass(s, e.t, e.n, e.m, e.args)
       [] e.op = "ret" -> MayReturn(st1.conf, s, e.t, e.r)
       [] e.op = "odd" -> ~e.r.ok
       \* look-ups by name
       [] e.op = "get" -> IF e.there THEN IF e.kind = e.of THEN e.r.ok /\ e.r.v = e.id
                                          ELSE (IF e.of \in {"findex", "gindex"} THEN e.r.ok /\ e.r.v = 0 ELSE ~e.r.ok)
                          ELSE (IF e.of \in {"findex", "gindex"} THEN e.r.ok /\ e.r.v = 0 ELSE ~e.r.ok)
       \* uris
       [] e.op = "parse" -> e.o = "err" \/ (/\ e.p # <<>> /\ e.u = Parse(e.p)
                                           /\ e.show = Show(e.u) /\ e.norm = e.show)
       [] e.op = "join" -> e.r = Join(e.p, e.q)
       [] e.op = "name" -> e.r = Name(e.p)
       [] e.op = "parent" -> e.r = Parent(e.p)
       [] e.op = "temp" -> /\ e.a # e.b /\ e.p \notin {e.a, e.b}
                           /\ \A x \in {e.a, e.b} : Parent(x) = Parent(e.p) /\ Name(x)[1] = 46
       [] e.op = "one" -> e.same
       [] OTHER -> FALSE
Step(st1, e) == LET s == st1.s IN
  [st1 EXCEPT !.s = CASE e.op = "call" -> Begin(s, e.t, e.m, e.u, e.args)
       [] e.op = "make" -> Make(s, e.t, e.key, e.n, e.ok)
       [] e.op = "pass" -> Pass(s, e.t, e.r)
       [] e.op = "ret" -> Return(s, e.t)
       [] OTHER -> s]
Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
