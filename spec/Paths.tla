------------------------------- MODULE Paths -------------------------------
(* Uris as byte lists: scheme, authority and path; slashes that repeat or   *)
(* end a path do not matter.                                                *)
EXTENDS Integers, Sequences, FiniteSets
SL == 47
CO == 58
First(p, c, from) == LET H == {k \in from..Len(p) : p[k] = c} IN
                     IF H = {} THEN 0 ELSE CHOOSE k \in H : \A j \in H : k <= j
Last(p, c) == LET H == {k \in 1..Len(p) : p[k] = c} IN
              IF H = {} THEN 0 ELSE CHOOSE k \in H : \A j \in H : j <= k
From(p, k) == SubSeq(p, k, Len(p))
\* keep what is not a slash after a slash
Keep(p) == {k \in 1..Len(p) : k = 1 \/ p[k] # SL \/ p[k - 1] # SL}
RECURSIVE Pick(_, _, _)
Pick(p, K, k) == IF k > Len(p) THEN <<>> ELSE (IF k \in K THEN <<p[k]>> ELSE <<>>) \o Pick(p, K, k + 1)
NoEnd(p) == IF Len(p) > 1 /\ p[Len(p)] = SL THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Plain(p) == NoEnd(Pick(p, Keep(p), 1))
Parse(p) ==
  LET colon == First(p, CO, 1)
      slash == First(p, SL, 1)
      has == colon > 0 /\ (slash = 0 \/ colon < slash)
      scheme == IF has THEN SubSeq(p, 1, colon - 1) ELSE <<>>
      rest == IF has THEN From(p, colon + 1) ELSE p
      auth == Len(rest) > 2 /\ rest[1] = SL /\ rest[2] = SL
      e == IF First(rest, SL, 3) = 0 THEN Len(rest) + 1 ELSE First(rest, SL, 3)
  IN [scheme |-> scheme, auth |-> IF auth THEN SubSeq(rest, 3, e - 1) ELSE <<>>,
      path |-> Plain(IF auth THEN From(rest, e) ELSE rest)]
Show(u) == (IF u.scheme = <<>> THEN <<>> ELSE Append(u.scheme, CO))
           \o (IF u.auth = <<>> THEN <<>> ELSE <<SL, SL>> \o u.auth) \o u.path
Join(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE (IF a[Len(a)] = SL /\ b[1] = SL THEN a \o Tail(b)
                    ELSE IF a[Len(a)] = SL \/ b[1] = SL THEN a \o b ELSE a \o <<SL>> \o b)
Name(p) == LET q == NoEnd(p) IN From(q, Last(q, SL) + 1)
RECURSIVE Strip(_)
Strip(p) == IF p # <<>> /\ p[Len(p)] = SL THEN Strip(SubSeq(p, 1, Len(p) - 1)) ELSE p
Parent(p) == LET q == Strip(p) IN Strip(SubSeq(q, 1, Last(q, SL)))

\* laws
Laws(B, n) ==
  LET P == UNION {[1..m -> B] : m \in 1..n} IN
  /\ \A p \in P : LET u == Parse(p) IN
       /\ Plain(u.path) = u.path
       /\ (p[1] # CO /\ Show(u) # <<>>) => Parse(Show(u)) = u
       /\ Plain(p) = Plain(Plain(p))
       /\ SL \notin {Name(p)[k] : k \in DOMAIN Name(p)} \/ p[Len(p)] = SL
       \* a name put into a directory is found there
       /\ p[Len(p)] # SL => /\ Name(Join(p, <<1>>)) = <<1>>
                            /\ Parent(Join(p, <<1>>)) = Strip(p)
=============================================================================
