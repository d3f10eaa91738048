------------------------------ MODULE Messages ------------------------------
(* What is sent between processes and kept in manifests: descriptions of      *)
(* files are rows (see Rows), whose later columns older versions lack;        *)
(* messages and splits are lists of them in a stream of numbers, highest byte *)
(* first.                                                                     *)
EXTENDS Rows, FiniteSets
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Join(Tail(q))
Sized(q) == Be4(Len(q)) \o q
ListOf(q) == Be4(Len(q)) \o Join(q)
Flag(b) == <<IF b THEN 1 ELSE 0>>
Opt(q) == IF q = <<>> THEN <<0>> ELSE <<1>> \o q[1]
Lack(F, n) == [j \in DOMAIN F |-> IF j <= n THEN F[j] ELSE [F[j] EXCEPT !.v = <<>>]]
Packed(F, n) == Sized(RowBytes(0, SubSeq(F, 1, n)))
(* ---- descriptions of index files *)
(* the entries of version 1 do not know how many rows are deleted *)
Narrow(F) ==
  IF Null(F[5]) THEN F
  ELSE LET a == F[5].v[1] IN
       [F EXCEPT ![5].v = <<[a EXCEPT !.f = [j \in DOMAIN a.f |-> [a.f[j] EXCEPT !.v = <<[a.f[j].v[1] EXCEPT !.f = SubSeq(a.f[j].v[1].f, 1, 3)]>>]]]>>]
Unknown(F) ==
  IF Null(F[5]) THEN F
  ELSE LET a == F[5].v[1] IN
       [F EXCEPT ![5].v = <<[a EXCEPT !.f = [j \in DOMAIN a.f |-> [a.f[j] EXCEPT !.v = <<[a.f[j].v[1] EXCEPT !.f = Lack(a.f[j].v[1].f, 3)]>>]]]>>]
IndexCols(v) == IF v >= 11 THEN 7 ELSE IF v >= 9 THEN 6 ELSE 5
IndexBytes(v, F) == Packed(IF v <= 4 THEN Narrow(F) ELSE F, IndexCols(v))
IndexBack(v, F) == Lack(IF v <= 4 THEN Unknown(F) ELSE F, IndexCols(v))
(* ---- messages: ten lists; before version 10 the index files of both parts *)
(* were in one pair of lists                                                 *)
Oldest == 3
Current == 11
FileCols(v) == CASE v >= 9 -> 20 [] v = 8 -> 19 [] v \in {6, 7} -> 18 [] v \in {4, 5} -> 17 [] OTHER -> 16
Files(v, L) == ListOf([j \in DOMAIN L |-> Packed(L[j], FileCols(v))])
Indexes(v, L) == ListOf([j \in DOMAIN L |-> IndexBytes(v, L[j])])
MessageBytes(v, m) ==
  LET D == m.data C == m.compact IN
  Sized(m.part) \o m.bucket \o (IF v >= 7 THEN Opt(m.total) ELSE <<>>)
  \o Files(v, D[1]) \o Files(v, D[2]) \o Files(v, D[3])
  \o (IF v >= 10 THEN Indexes(v, D[4]) \o Indexes(v, D[5]) ELSE <<>>)
  \o Files(v, C[1]) \o Files(v, C[2]) \o Files(v, C[3])
  \o (IF v >= 10 THEN Indexes(v, C[4]) \o Indexes(v, C[5]) ELSE Indexes(v, D[4] \o C[4]) \o Indexes(v, D[5] \o C[5]))
MessageBack(v, m) ==
  LET D == m.data C == m.compact
      F(L) == [j \in DOMAIN L |-> Lack(L[j], FileCols(v))]
      X(L) == [j \in DOMAIN L |-> IndexBack(v, L[j])]
      Compacts == C[1] # <<>> \/ C[2] # <<>> \/ C[3] # <<>>
      n == X(D[4] \o C[4])
      d == X(D[5] \o C[5])
  IN [m EXCEPT !.total = IF v >= 7 THEN m.total ELSE <<>>,
               !.data = <<F(D[1]), F(D[2]), F(D[3])>> \o (IF v >= 10 THEN <<X(D[4]), X(D[5])>> ELSE IF Compacts THEN <<<<>>, <<>>>> ELSE <<n, d>>),
               !.compact = <<F(C[1]), F(C[2]), F(C[3])>> \o (IF v >= 10 THEN <<X(C[4]), X(C[5])>> ELSE IF Compacts THEN <<n, d>> ELSE <<<<>>, <<>>>>)]
(* ---- splits *)
SplitMagic == <<222, 195, 210, 48, 44, 25, 236, 102>>
IndexedMagic == <<242, 249, 224, 84, 66, 36, 46, 49>>
SplitCols(v) == CASE v >= 8 -> 20 [] v = 7 -> 19 [] v \in {5, 6} -> 18 [] v \in {3, 4} -> 17 [] OTHER -> 16
Be2(n) == <<n \div 256, n % 256>>
Text2(q) == Be2(Len(q)) \o q
Minus1 == <<255, 255, 255, 255, 255, 255, 255, 255>>
Deletion(v, d) == IF d = <<>> THEN <<0>>
                  ELSE <<1>> \o Text2(d[1].path) \o d[1].from \o d[1].len
                       \o (IF v < 4 THEN <<>> ELSE IF d[1].card = <<>> THEN Minus1 ELSE d[1].card[1])
Deletions(v, L) == IF L = <<>> THEN <<0>> ELSE <<1>> \o ListOf([j \in DOMAIN L |-> Deletion(v, L[j])])
SplitFiles(v, L) == ListOf([j \in DOMAIN L |-> Packed(L[j], SplitCols(v))])
SplitBytes(v, s) ==
  SplitMagic \o Be4(v) \o s.snapshot \o Sized(s.part) \o s.bucket \o Text2(s.path) \o (IF v >= 6 THEN Opt(s.total) ELSE <<>>)
  \o SplitFiles(v, s.before) \o Deletions(v, s.beforeDel) \o SplitFiles(v, s.files) \o Deletions(v, s.del)
  \o Flag(s.streaming) \o Flag(s.raw)
SplitBack(v, s) ==
  LET F(L) == [j \in DOMAIN L |-> Lack(L[j], SplitCols(v))]
      X(L) == IF v >= 4 THEN L ELSE [j \in DOMAIN L |-> IF L[j] = <<>> THEN <<>> ELSE <<[L[j][1] EXCEPT !.card = <<>>]>>]
  IN [s EXCEPT !.total = IF v >= 6 THEN s.total ELSE <<>>, !.before = F(s.before), !.files = F(s.files),
               !.beforeDel = X(s.beforeDel), !.del = X(s.del)]
IndexedBytes(s, ranges, scores) ==
  IndexedMagic \o Be4(1) \o SplitBytes(8, s) \o ListOf([j \in DOMAIN ranges |-> ranges[j][1] \o ranges[j][2]])
  \o (IF scores = <<>> THEN <<0>> ELSE <<1>> \o ListOf(scores))
=============================================================================
