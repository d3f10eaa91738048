------------------------------- MODULE Ranges -------------------------------
(* Inclusive integer ranges <<lo, hi>>: what the operations denote           *)
(* (declarative part) and how the sweeps compute it (algorithmic part).      *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL SetOf(s) == {s[k] : k \in DOMAIN s}

Touch(a, b, adj) == a[1] <= b[2] + adj /\ b[1] <= a[2] + adj
Hull(a, b) == <<IF a[1] <= b[1] THEN a[1] ELSE b[1], IF a[2] >= b[2] THEN a[2] ELSE b[2]>>

\* components of the touch relation, each replaced by its hull
RECURSIVE Components(_, _)
Components(S, adj) ==
  IF \E a \in S : \E b \in S \ {a} : Touch(a, b, adj)
  THEN LET p == CHOOSE q \in S \X S : q[1] # q[2] /\ Touch(q[1], q[2], adj)
       IN Components((S \ {p[1], p[2]}) \cup {Hull(p[1], p[2])}, adj)
  ELSE S

RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
                   IN <<m>> \o Ordered(S \ {m})

Merged(in, adj) == Ordered(Components(SetOf(in), adj))

Cap(a, b) == <<IF a[1] >= b[1] THEN a[1] ELSE b[1], IF a[2] <= b[2] THEN a[2] ELSE b[2]>>
Meets(a, b) == Cap(a, b)[1] <= Cap(a, b)[2]
Intersect(a, b) == Ordered({Cap(x, y) : <<x, y>> \in {p \in SetOf(a) \X SetOf(b) : Meets(p[1], p[2])}})

\* maximal runs of a minus the union of in
Minus(a, in) ==
  LET cover == Components({Cap(a, x) : x \in {y \in SetOf(in) : Meets(a, y)}}, 1)
      lows == {a[1]} \cup {c[2] + 1 : c \in cover}
      Free(x) == x <= a[2] /\ \A c \in cover : x < c[1] \/ x > c[2]
      End(x) == LET ups == {c[1] - 1 : c \in {d \in cover : d[1] > x}} \cup {a[2]}
                IN CHOOSE u \in ups : \A v \in ups : u <= v
  IN Ordered({<<x, End(x)>> : x \in {y \in lows : Free(y)}})

\* items (positions of `in`) connected through a chain of overlaps
RECURSIVE Reach(_, _)
Reach(in, S) == LET T == S \cup {j \in DOMAIN in : \E k \in S : Touch(in[k], in[j], 0)}
                IN IF T = S THEN S ELSE Reach(in, T)
Groups(in) == {Reach(in, {k}) : k \in DOMAIN in}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
LowOf(in, G) == LET L == {in[k][1] : k \in G} IN CHOOSE x \in L : \A y \in L : x <= y
RECURSIVE OrderGroups(_, _)
OrderGroups(in, GG) ==
  IF GG = {} THEN <<>>
  ELSE LET m == CHOOSE g \in GG : \A h \in GG : LowOf(in, g) <= LowOf(in, h)
       IN <<Sorted(m)>> \o OrderGroups(in, GG \ {m})
Grouping(in) == OrderGroups(in, Groups(in))

\* --- the sweeps of the implementation --------------------------------------
RECURSIVE SortRanges(_)
SortRanges(in) ==
  IF in = <<>> THEN <<>>
  ELSE LET k == CHOOSE x \in DOMAIN in : \A y \in DOMAIN in :
                    in[x][1] < in[y][1] \/ (in[x][1] = in[y][1] /\ (in[x][2] < in[y][2] \/ (in[x][2] = in[y][2] /\ x <= y)))
       IN <<in[k]>> \o SortRanges(SubSeq(in, 1, k - 1) \o SubSeq(in, k + 1, Len(in)))

RECURSIVE SweepMerge(_, _, _)
SweepMerge(cur, rest, adj) ==
  IF rest = <<>> THEN <<cur>>
  ELSE IF cur[2] + adj >= Head(rest)[1]
       THEN SweepMerge(<<cur[1], IF cur[2] >= Head(rest)[2] THEN cur[2] ELSE Head(rest)[2]>>, Tail(rest), adj)
       ELSE <<cur>> \o SweepMerge(Head(rest), Tail(rest), adj)
MergeAlgo(in, adj) == IF in = <<>> THEN <<>> ELSE LET s == SortRanges(in) IN SweepMerge(Head(s), Tail(s), adj)

RECURSIVE AndAlgo(_, _)
AndAlgo(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE (IF Meets(Head(a), Head(b)) THEN <<Cap(Head(a), Head(b))>> ELSE <<>>)
       \o (IF Head(a)[2] <= Head(b)[2] THEN AndAlgo(Tail(a), b) ELSE AndAlgo(a, Tail(b)))

RECURSIVE SweepExclude(_, _, _)
SweepExclude(cur, to, rest) ==
  IF rest = <<>> THEN IF cur <= to THEN <<<<cur, to>>>> ELSE <<>>
  ELSE IF cur > to THEN <<>>
  ELSE IF ~Meets(<<cur, to>>, Head(rest)) THEN SweepExclude(cur, to, Tail(rest))
  ELSE LET x == Cap(<<cur, to>>, Head(rest)) IN
       (IF cur < x[1] THEN <<<<cur, x[1] - 1>>>> ELSE <<>>) \o SweepExclude(x[2] + 1, to, Tail(rest))
ExcludeAlgo(a, in) == SweepExclude(a[1], a[2], SortRanges(in))

\* items with positions, sorted by (start, end), grouped while start <= running end
RECURSIVE SortIdx(_, _)
SortIdx(in, S) ==
  IF S = {} THEN <<>>
  ELSE LET k == CHOOSE x \in S : \A y \in S :
             in[x][1] < in[y][1] \/ (in[x][1] = in[y][1] /\ (in[x][2] < in[y][2] \/ (in[x][2] = in[y][2] /\ x <= y)))
       IN <<k>> \o SortIdx(in, S \ {k})
RECURSIVE SweepGroup(_, _, _, _)
SweepGroup(in, cur, end, rest) ==
  IF rest = <<>> THEN <<Sorted(cur)>>
  ELSE LET k == Head(rest) IN
       IF in[k][1] <= end THEN SweepGroup(in, cur \cup {k}, IF in[k][2] > end THEN in[k][2] ELSE end, Tail(rest))
       ELSE <<Sorted(cur)>> \o SweepGroup(in, {k}, in[k][2], Tail(rest))
GroupAlgo(in) == IF in = <<>> THEN <<>>
                 ELSE LET s == SortIdx(in, DOMAIN in) IN SweepGroup(in, {Head(s)}, in[Head(s)][2], Tail(s))
=============================================================================
