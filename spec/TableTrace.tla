---------------------------- MODULE TableTrace ----------------------------
EXTENDS Trace, Table

Procs == 0..6
Start(in) == Empty(Procs) @@ [rid |-> in.rid, streams |-> <<>>, gone |-> <<>>, info |-> <<>>, ehint |-> -1]

\* A hint that names an existing snapshot is trusted as the oldest one.  After a
\* misleading one (-2) it may be anywhere.  What a failed expiration left may be skipped.
Lied(s) == s.ehint = -2 \/ (s.ehint \in Ids(s) /\ s.ehint # Oldest(s))
Whole(s) == IF Ids(s) \ s.doomed = {} THEN Oldest(s) ELSE MinOf(Ids(s) \ s.doomed)
Hinted(s) == IF s.ehint = -2 THEN s.last ELSE IF s.ehint \in Ids(s) THEN s.ehint ELSE Whole(s)
Units(us) == [k \in DOMAIN us |-> [ident |-> us[k].ident, rows |-> Range(us[k].rows)]]
Call(s, e) ==
    LET a == e.a
        b == [k |-> a.k, flt |-> e.flt, conc |-> e.conc, done |-> {}]
    IN CASE a.k = "commit" -> b @@ [user |-> a.user, ident |-> a.ident, rows |-> Range(a.rows), wm |-> a.wm, ign |-> a.ign]
         [] a.k = "filter" -> b @@ [user |-> a.user, units |-> Units(a.units), wm |-> a.wm, ign |-> a.ign,
                                    base |-> Newest(s, a.user)]
         [] a.k \in {"over", "fover", "drop"} ->
                b @@ [user |-> a.user, ident |-> a.ident, rows |-> Range(a.rows), wm |-> a.wm, specs |-> Range(a.specs),
                      base |-> Newest(s, a.user)]
         [] a.k = "expire" -> b @@ [min |-> a.min, max |-> a.max, lim |-> a.lim, age |-> a.age, now |-> a.now,
                                    must |-> {id \in Condemned(s, a, Oldest(s)) : id >= Hinted(s)} \ s.doomed,
                                    mark |-> Condemned(s, a, Hinted(s)), first |-> Hinted(s), plain |-> ~Lied(s)]
         [] a.k = "clean" -> LET c == [old |-> a.old, keep |-> Range(a.keep)] IN b @@ c @@ [may |-> Cleanable(s, c)]
         [] a.k = "look" -> b @@ [lo |-> s.last]
         [] a.k = "poll" -> b @@ [lo |-> s.last, s |-> a.s]
         [] OTHER -> b

GoodRows(s, e, id) == Range(e.rows) = (IF id = 0 THEN {} ELSE s.snaps[id].rows) /\ Cardinality(Range(e.rows)) = Len(e.rows)
GoodFind(s, e) ==
    /\ e.latest = s.last /\ e.snap = s.last
    /\ \/ Holes(s)
       \/ /\ e.o = "ok"
          /\ IF Ids(s) = {} THEN e.earliest = 0
             ELSE e.earliest = First(s) \/ (Lied(s) /\ e.earliest \in Ids(s) /\ s.ehint \in {-2, e.earliest})
          /\ \A u \in 1..3 : LET mine == {id \in Ids(s) : s.snaps[id].user = "user" \o ToString(u)} IN
                 \/ e.users[u] = IF mine = {} THEN 0 ELSE SetMax(mine)
                 \* what lies before a trusted hint is not looked at
                 \/ Lied(s) /\ e.users[u] = 0 /\ \A id \in mine : id < e.earliest

Good(s, e) ==
    CASE e.op = "call" -> e.o = "ok" /\ s.calls[e.c].k = "none"
      [] e.op = "mk" -> TRUE
      [] e.op \in {"rm", "mod"} -> e.f \notin Needed(s) /\ (s.calls[e.c].k = "clean" => e.f \in s.calls[e.c].may)
      [] e.op = "pub" -> e.o = "ok" /\ GoodPublish(s, e.c, e) /\ (s.rid => GoodRowIds(s, e.c, e))
      [] e.op = "unpub" -> GoodUnpublish(s, e.c, e.id)
      [] e.op = "ret" -> /\ e.o \in {"ok", "err"} /\ GoodReturn(s, e.c, e.o = "ok", e.lost, e.n)
                         /\ (s.calls[e.c].k = "expire" /\ e.o = "ok" /\ s.clean /\ ~s.calls[e.c].flt =>
                                Stale(s, s.gone) \cap s.files = {})
                         /\ (s.calls[e.c].k = "clean" /\ e.o = "ok" /\ ~s.calls[e.c].flt => GoodCleaned(s, s.calls[e.c], Range(e.gone)))
      [] e.op = "died" -> TRUE
      [] e.op = "look" -> e.o = "ok" /\ e.id = s.last /\ GoodRows(s, e, s.last)
      [] e.op = "seen" -> GoodSeen(s, s.calls[e.c], e)
      [] e.op = "read" -> IF e.id \in Ids(s) \ Weak(s)
                          THEN /\ e.o = "ok" /\ GoodRows(s, e, e.id)
                               /\ (s.rid => Range(e.rids) = s.snaps[e.id].rids)
                          ELSE e.id \in Ids(s) \/ e.o = "err" \/ (Ids(s) = {} /\ e.rows = <<>>)
      [] e.op = "sopen" -> e.o = "ok"
      [] e.op = "polled" -> GoodPolled(s, s.streams[s.calls[e.c].s], s.calls[e.c].lo, e)
      [] e.op \in {"recreate", "hint"} -> TRUE
      [] e.op = "find" -> GoodFind(s, e)
      [] OTHER -> FALSE

\* what an expiration that failed or stopped may have begun to take apart
Doom(s, c) == IF s.calls[c].k = "expire" THEN s.doomed \cup s.calls[c].mark ELSE s.doomed
Polled(s, e) ==
    LET a == s.calls[e.c] IN
    [s EXCEPT !.calls[e.c] = NoCall, !.streams[a.s] = StandsAt(s, @, a.lo, e)]

Step(s, e) ==
    CASE e.op = "call" -> LET a == Call(s, e)
                              t == [s EXCEPT !.calls[e.c] = a]
                          IN IF a.k = "expire" THEN [t EXCEPT !.gone = <<>>] ELSE t
      [] e.op = "mk" -> [s EXCEPT !.files = @ \cup {e.f}, !.info = (e.f :> [g |-> e.g, t |-> e.t]) @@ @]
      [] e.op = "rm" -> [s EXCEPT !.files = @ \ {e.f}]
      [] e.op = "pub" -> Remark(Publish(s, e.c, e, IF s.rid THEN Range(e.rids) ELSE {}))
      [] e.op = "unpub" -> [Unpublish(s, e.id) EXCEPT !.gone = (e.id :> s.snaps[e.id]) @@ @]
      [] e.op = "ret" -> [s EXCEPT !.calls[e.c] = NoCall, !.doomed = IF e.o = "ok" /\ ~s.calls[e.c].flt THEN @ ELSE Doom(s, e.c),
                                   !.ehint = IF s.calls[e.c].k = "expire" /\ ~s.calls[e.c].plain THEN -2 ELSE @,
                                   !.clean = @ /\ (s.calls[e.c].k = "expire" => e.o = "ok" /\ ~s.calls[e.c].flt)]
      [] e.op = "died" -> [s EXCEPT !.calls[e.c] = NoCall, !.doomed = Doom(s, e.c), !.clean = @ /\ s.calls[e.c].k # "expire"]
      [] e.op = "seen" -> [s EXCEPT !.calls[e.c] = NoCall]
      [] e.op = "sopen" -> [s EXCEPT !.streams = Append(@, {NewStream(e.how, e.start)})]
      [] e.op = "polled" -> Polled(s, e)
      [] e.op = "recreate" -> [Start([rid |-> s.rid]) EXCEPT !.streams = s.streams, !.calls = s.calls]
      [] e.op = "hint" -> IF e.which = "EARLIEST" THEN [s EXCEPT !.ehint = e.v] ELSE s
      [] OTHER -> s

Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
