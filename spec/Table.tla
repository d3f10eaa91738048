------------------------------- MODULE Table -------------------------------
(* A table as its users see it: a history of snapshots, each with a fixed  *)
(* set of rows, and the files the published snapshots need.  Processes     *)
(* call operations; what they publish or remove in between is an event of  *)
(* its own, so that any interleaving of processes is a sequence of events. *)
(*                                                                         *)
(* A row is <<v, p, q>>: a number of its own and its partition values.     *)
(* A partition specification is <<p, q>> with -1 for an open column; no    *)
(* specification at all means every row.                                   *)
EXTENDS Integers, Sequences, FiniteSets

Elems(s) == {s[k] : k \in DOMAIN s}
NoCall == [k |-> "none"]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

Matches(r, specs) == \/ specs = {}
                     \/ \E sp \in specs : /\ sp[1] \in {-1, r[2]}
                                          /\ sp[2] \in {-1, r[3]}

(* state: files   existing files (without the snapshot files)              *)
(*        snaps   published and not removed snapshots, by id               *)
(*        last    id of the newest snapshot ever published, 0 if none      *)
(*        calls   what each process is doing                               *)
(*        doomed  snapshots that an unfinished expiration may have begun   *)
(*                to take apart                                            *)
(*        clean   no expiration failed so far                              *)
(*        hist    what every snapshot ever published contained             *)
(*        ever    files that some published snapshot referred to           *)
Empty(procs) == [files |-> {}, snaps |-> <<>>, last |-> 0,
                 calls |-> [c \in procs |-> NoCall], doomed |-> {}, clean |-> TRUE,
                 hist |-> <<>>, ever |-> {}]

Ids(s) == DOMAIN s.snaps
Content(s) == IF s.last = 0 THEN {} ELSE s.snaps[s.last].rows
Watermark(s) == IF s.last = 0 THEN -1 ELSE s.snaps[s.last].wm
NextRid(s) == IF s.last = 0 THEN 0 ELSE s.snaps[s.last].nrid
\* snapshots that the expirations at work may remove
Marked(s) == UNION {s.calls[c].mark : c \in {x \in DOMAIN s.calls : s.calls[x].k = "expire"}}
Weak(s) == s.doomed \cup Marked(s)
Needed(s) == UNION {s.snaps[id].refs : id \in Ids(s) \ Weak(s)}
\* the newest identifier of a user in the snapshots that exist, -1 if none
Newest(s, user) ==
    LET mine == {id \in Ids(s) : s.snaps[id].user = user} IN
    IF mine = {} THEN -1 ELSE s.snaps[MaxOf(mine)].ident

-----------------------------------------------------------------------------
(* Publishing.  `a` is the call during which it happens.                    *)
Publishers == {"commit", "filter", "over", "fover", "drop"}
\* the parts of an identified commit that are not in the history yet, in order
Open(s, a) == {k \in DOMAIN a.units : /\ a.units[k].ident > a.base
                                      /\ ~(a.ign /\ a.units[k].rows = {})
                                      /\ a.units[k].ident \notin a.done}
Unit(s, a) == CASE a.k = "filter" ->
                     LET o == Open(s, a) IN
                     IF o = {} THEN [ident |-> -2, rows |-> {}]
                     ELSE a.units[CHOOSE k \in o : \A j \in o : a.units[k].ident <= a.units[j].ident]
                [] OTHER -> [ident |-> a.ident, rows |-> a.rows]
MayPublish(s, a) ==
    CASE a.k \in {"commit", "over", "drop"} -> a.done = {}
      [] a.k = "fover" -> a.done = {} /\ a.ident > a.base
      [] a.k = "filter" -> Open(s, a) # {}
      [] OTHER -> FALSE
After(s, a) ==
    LET old == Content(s) new == Unit(s, a).rows IN
    IF a.k \in {"over", "fover", "drop"} THEN {r \in old : ~Matches(r, a.specs)} \cup new
    ELSE old \cup new
KindOf(a) == IF a.k \in {"commit", "filter"} THEN "APPEND" ELSE "OVERWRITE"

GoodPublish(s, c, e) ==
    LET a == s.calls[c] rows == Elems(e.rows) IN
    /\ a.k \in Publishers /\ MayPublish(s, a)
    /\ e.id = s.last + 1 /\ e.sid = e.id
    /\ e.user = a.user /\ e.ident = Unit(s, a).ident /\ e.kind = KindOf(a)
    /\ rows = After(s, a) /\ Cardinality(rows) = Len(e.rows)
    /\ Elems(e.refs) \subseteq s.files
    /\ e.total = Cardinality(rows)
    /\ e.delta = Cardinality(rows) - Cardinality(Content(s))
    /\ e.wm = (IF a.wm > Watermark(s) THEN a.wm ELSE Watermark(s))
\* row ids: kept by the rows that stay, and a gap-free continuation for the new ones
GoodRowIds(s, c, e) ==
    LET old == IF s.last = 0 THEN {} ELSE s.snaps[s.last].rids
        now == Elems(e.rids)
        stay == {r[1] : r \in Content(s)} \cap {x[1] : x \in now}
        fresh == {x[2] : x \in {y \in now : y[1] \notin stay}}
        n == NextRid(s)
    IN /\ Cardinality(now) = Len(e.rows)
       /\ {x \in now : x[1] \in stay} = {x \in old : x[1] \in stay}
       /\ fresh = n..(n + Cardinality(fresh) - 1)
       /\ Cardinality(fresh) = Cardinality({y \in now : y[1] \notin stay})
       /\ e.nrid = n + Cardinality(fresh)
Publish(s, c, e, rids) ==
    LET a == s.calls[c]
        snap == [rows |-> Elems(e.rows), refs |-> Elems(e.refs), user |-> e.user, ident |-> e.ident,
                 wm |-> e.wm, kind |-> e.kind, time |-> e.time, nrid |-> e.nrid, rids |-> rids,
                 new |-> Unit(s, a).rows]
    IN [s EXCEPT !.last = e.id, !.ever = @ \cup snap.refs,
                 !.hist = Append(@, [rows |-> snap.rows, kind |-> snap.kind, new |-> snap.new]),
                 !.snaps = [id \in Ids(s) \cup {e.id} |-> IF id = e.id THEN snap ELSE s.snaps[id]],
                 !.calls[c].done = @ \cup {e.ident}]

-----------------------------------------------------------------------------
(* Expiring.  The snapshots that go are a prefix: never one of the newest   *)
(* `min`, at most `lim` at a time, and a young one only beyond `max`.       *)
Oldest(s) == IF Ids(s) = {} THEN 1 ELSE MinOf(Ids(s))
\* `first` is the oldest snapshot when the expiration begins
Condemned(s, a, first) ==
    LET top == IF s.last - a.min + 1 < first + a.lim THEN s.last - a.min + 1 ELSE first + a.lim
        lo == IF s.last - a.max + 1 > first THEN s.last - a.max + 1 ELSE first
        young == {id \in lo..(top - 1) : id \in Ids(s) /\ s.snaps[id].time >= a.now - a.age}
        end == MinOf(young \cup {top})
    IN {id \in Ids(s) : id < end}
\* with more snapshots published meanwhile, more may be removed
Remark(s) == [s EXCEPT !.calls = [c \in DOMAIN s.calls |->
                 IF s.calls[c].k = "expire" THEN [s.calls[c] EXCEPT !.mark = @ \cup Condemned(s, s.calls[c], s.calls[c].first)]
                 ELSE s.calls[c]]]
GoodUnpublish(s, c, id) ==
    /\ s.calls[c].k = "expire" /\ id \in Ids(s)
    /\ id \in s.calls[c].mark
Unpublish(s, id) == [s EXCEPT !.snaps = [x \in Ids(s) \ {id} |-> s.snaps[x]], !.doomed = @ \ {id}]
Suffix(s) == \A id \in Ids(s) \ s.doomed : id..s.last \subseteq Ids(s)

-----------------------------------------------------------------------------
\* only an expiration misled by a hint leaves holes in the history
Holes(s) == \E id \in Ids(s) : ~(id..s.last \subseteq Ids(s))
(* Returning.  `flt`: a fault was injected during the call; `conc`: other   *)
(* processes were at work.                                                  *)
Complete(s, a) ==
    CASE a.k = "commit" -> a.done # {} \/ (a.ign /\ a.rows = {})
      [] a.k \in {"over", "drop"} -> a.done # {}
      [] a.k = "fover" -> a.done # {} \/ a.ident <= a.base
      [] a.k = "filter" -> Open(s, a) = {}
      [] a.k = "expire" -> a.flt \/ (a.must \cap Ids(s) = {} /\ (a.plain => Suffix(s)))
      [] OTHER -> TRUE
\* the number an identified commit reports
Applied(a) == CASE a.k = "filter" -> Cardinality({k \in DOMAIN a.units : a.units[k].ident > a.base})
                [] a.k = "fover" -> IF a.ident > a.base THEN 1 ELSE 0
                [] OTHER -> 0
GoodReturn(s, c, ok, lost, n) ==
    LET a == s.calls[c] IN
    /\ a.k # "none"
    /\ ok => /\ Complete(s, a)
             /\ (a.k \in {"filter", "fover"} => n = Applied(a))
    /\ ~ok => \/ /\ lost /\ (a.conc \/ a.flt) /\ (a.k \in {"commit", "over", "drop", "fover"} => a.done = {})
              \/ /\ ~lost /\ (a.flt \/ a.conc)
              \/ a.k = "drop" /\ a.specs = {} /\ a.done = {}
              \/ Holes(s) /\ a.done = {}
\* somebody who reads while others work sees one snapshot that was the newest meanwhile
GoodSeen(s, a, e) == \/ e.o = "ok" /\ e.id \in a.lo..s.last
                        /\ Elems(e.rows) = (IF e.id = 0 THEN {} ELSE s.hist[e.id].rows)
                        /\ Cardinality(Elems(e.rows)) = Len(e.rows)
                     \/ e.o = "err" /\ (Ids(s) # 1..s.last \/ Weak(s) # {})
-----------------------------------------------------------------------------
(* Cleaning removes what no published snapshot refers to, if it is of a     *)
(* managed kind, older than the given time and not to be kept.              *)
Cleanable(s, a) == {f \in s.files : s.info[f].g /\ s.info[f].t < a.old /\ f \notin a.keep} \ Needed(s)
GoodCleaned(s, a, gone) == /\ gone \subseteq a.may /\ gone \cap s.files = {}
                           /\ a.may \ s.ever \subseteq gone

-----------------------------------------------------------------------------
(* Streams.  `next` is the snapshot whose changes come next, 0 before the   *)
(* stream has found its start; `wait` remembers that there was no snapshot  *)
(* at all when the stream began.                                            *)
NewStream(how, start) == [how |-> how, start |-> start, next |-> 0, wait |-> FALSE]
First(s) == MinOf(Ids(s))
\* outcomes [id, rows, next, wait] of a poll that begins when the newest snapshot is `lo`
Plans(s, m, lo) ==
    LET full(id) == [id |-> id, rows |-> s.hist[id].rows, next |-> id + 1, wait |-> FALSE]
        nothing(n, w) == [id |-> 0, rows |-> {}, next |-> n, wait |-> w]
        tops == {n \in lo..s.last : n > 0}
    IN IF m.next = 0
       THEN (IF lo = 0 THEN {nothing(0, TRUE)} ELSE {})
            \cup (IF tops = {} THEN {}
                  ELSE CASE m.how = "latest-full" -> {full(n) : n \in tops}
                         [] m.how = "latest" -> IF m.wait THEN {nothing(1, FALSE)}
                                                ELSE {nothing(n + 1, FALSE) : n \in tops}
                                                     \cup (IF lo = 0 THEN {nothing(1, FALSE)} ELSE {})
                         [] m.how = "from-snapshot" -> {nothing(IF m.start > First(s) THEN m.start ELSE First(s), FALSE)}
                         [] OTHER -> LET id == IF m.start > First(s) THEN m.start ELSE First(s) IN
                                     IF id <= s.last THEN {full(id)} ELSE {})
       ELSE LET ready == {n \in m.next..s.last : s.hist[n].kind = "APPEND"}
                n == MinOf(ready)
            IN (IF ready # {} /\ (m.next..n) \subseteq Ids(s)
                THEN {[id |-> n, rows |-> s.hist[n].new, next |-> n + 1, wait |-> FALSE]} ELSE {})
               \cup {nothing(k + 1, FALSE) : k \in {k \in ((IF lo > m.next - 1 THEN lo ELSE m.next - 1)..s.last) :
                          /\ m.next <= k + 1 /\ m.next <= s.last + 1 /\ m.next..k \subseteq Ids(s)
                          /\ \A x \in m.next..k : s.hist[x].kind # "APPEND"}}
\* a poll may fail only if its next snapshot is gone or cannot exist
MayFail(s, m, lo) ==
    \/ m.next > 0 /\ (m.next > lo + 1 \/ \E x \in m.next..s.last : x \notin Ids(s) \ Weak(s))
    \/ m.next = 0 /\ m.how = "from-snapshot-full" /\ Ids(s) # {} /\ m.start > lo
\* where a stream may stand is a set: a poll during a commit may or may not have seen it
GoodPolled(s, ms, lo, e) ==
    \/ e.o = "ok" /\ \E m \in ms : \E p \in Plans(s, m, lo) : /\ p.id = e.id /\ p.rows = Elems(e.rows)
                                                            /\ Cardinality(p.rows) = Len(e.rows)
    \/ e.o = "err" /\ \E m \in ms : MayFail(s, m, lo)
StandsAt(s, ms, lo, e) ==
    IF e.o # "ok" THEN {m \in ms : MayFail(s, m, lo)}
    ELSE UNION {{[m EXCEPT !.next = p.next, !.wait = p.wait] :
                     p \in {x \in Plans(s, m, lo) : x.id = e.id /\ x.rows = Elems(e.rows)}} : m \in ms}

\* files of removed snapshots that no remaining one needs
Stale(s, removed) == UNION {removed[id].refs : id \in DOMAIN removed}
                     \ UNION {s.snaps[id].refs : id \in Ids(s) \ s.doomed}
=============================================================================
