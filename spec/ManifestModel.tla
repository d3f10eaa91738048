--------------------------- MODULE ManifestModel ---------------------------
(* How a snapshot says which data files are live.  A manifest is a sequence *)
(* of entries that add or delete a file; a snapshot names its manifests in  *)
(* order.  A commit appends one manifest; it may first merge a run of       *)
(* consecutive manifests into one (an addition and the later deletion of    *)
(* the same file cancel out, a deletion whose addition is elsewhere stays)  *)
(* or all of them (only additions remain).  The live files of the merged    *)
(* manifests are the content that the commits define, each exactly once.    *)
EXTENDS Table, TLC

CONSTANTS NFiles, MaxCommits

VARIABLES mans, content, used, n
vars == <<mans, content, used, n>>

\* the file f lies in the partition <<f % 2, (f \div 2) % 2>>
Part(f) == <<f, f % 2, (f \div 2) % 2>>
Files == 1..NFiles
Flat(ms) == LET RECURSIVE F(_)
                F(k) == IF k > Len(ms) THEN <<>> ELSE ms[k] \o F(k + 1)
            IN F(1)
\* merging entries: the last word on each file, deletions without an addition are kept
Merge(es) == LET RECURSIVE M(_, _)
                 M(k, out) == IF k > Len(es) THEN out
                              ELSE LET e == es[k] IN
                                   IF e.kind = "add" THEN M(k + 1, Append(out, e))
                                   ELSE IF \E j \in DOMAIN out : out[j] = [kind |-> "add", f |-> e.f]
                                   THEN M(k + 1, SelectSeq(out, LAMBDA x : x # [kind |-> "add", f |-> e.f]))
                                   ELSE M(k + 1, Append(out, e))
             IN M(1, <<>>)
Live(ms) == LET m == Merge(Flat(ms)) IN [k \in DOMAIN m |-> m[k].f]
SeqOf(S) == LET RECURSIVE Q(_)
                Q(T) == IF T = {} THEN <<>> ELSE LET x == MinOf(T) IN <<x>> \o Q(T \ {x})
            IN Q(S)
Entries(kind, S) == LET q == SeqOf(S) IN [k \in DOMAIN q |-> [kind |-> kind, f |-> q[k]]]

\* merged manifests: none, a run of them, or all
Merged == {mans}
          \cup {SubSeq(mans, 1, r[1] - 1) \o <<Merge(Flat(SubSeq(mans, r[1], r[2])))>> \o SubSeq(mans, r[2] + 1, Len(mans)) :
                    r \in {x \in (1..Len(mans)) \X (1..Len(mans)) : x[1] <= x[2]}}
Specs == {{}, {<<0, -1>>}, {<<-1, 1>>}, {<<1, 0>>}, {<<0, 0>>, <<1, 1>>}}

Init == mans = <<>> /\ content = {} /\ used = 0 /\ n = 0
Append1 == \E k \in 0..2 :
             /\ used + k <= NFiles
             /\ LET new == (used + 1)..(used + k) IN
                /\ content' = content \cup new
                /\ \E m \in Merged : mans' = Append(m, Entries("add", new))
                /\ used' = used + k
Over == \E k \in 0..1, sp \in Specs :
             /\ used + k <= NFiles
             /\ LET new == (used + 1)..(used + k)
                    old == {f \in content : Matches(Part(f), sp)} IN
                /\ content' = (content \ old) \cup new
                /\ \E m \in Merged : mans' = Append(m, Entries("del", old) \o Entries("add", new))
                /\ used' = used + k
Next == n < MaxCommits /\ n' = n + 1 /\ (Append1 \/ Over)

\* each live file is named once, and only live files are
Exact == LET l == Live(mans) IN Elems(l) = content /\ Len(l) = Cardinality(content)
=============================================================================
