--------------------------- MODULE MessagesModel ---------------------------
(* One process sends a message in some version, another reads it.  The reader *)
(* works through the stream: it must find every list of every version and     *)
(* end exactly at the end, and a stream that was cut must not be readable.    *)
EXTENDS Messages, TLC
CONSTANTS Versions, Ahead, Most
VARIABLES version, msg, sent, got
vars == <<version, msg, sent, got>>
F(t, v) == [t |-> t, v |-> v]
(* the columns that came last vary *)
File(a, b, c, d) == [j \in 1..16 |-> F("b1", <<<<j>>>>)] \o <<F("b1", a), F("text", b), F("b1", c), F("text", d)>>
FilesOf == {File(a, b, <<>>, d) : a, b \in {<<>>, <<<<7>>>>}, d \in {<<>>, <<<<1, 2, 3, 4, 5, 6, 7, 8, 9>>>>}}
Index(b, c) == <<F("text", <<<<1>>>>), F("text", <<<<2>>>>), F("b8", <<Zeros(8)>>), F("b8", <<Zeros(8)>>), F("text", <<>>), F("text", b), F("b1", c)>>
IndexesOf == {Index(b, c) : b, c \in {<<>>, <<<<3>>>>}}
FileTypes == [j \in 1..16 |-> "b1"] \o <<"b1", "text", "b1", "text">>
IndexTypes == <<"text", "text", "b8", "b8", "text", "text", "b1">>
(* the reader: what is left of the stream and what was read, or nothing *)
Fail == [ok |-> FALSE, q |-> <<>>, v |-> <<>>]
Take(q, n) == IF n < 0 \/ Len(q) < n THEN Fail ELSE [ok |-> TRUE, q |-> SubSeq(q, n + 1, Len(q)), v |-> SubSeq(q, 1, n)]
Count(q) == LET r == Take(q, 4) IN IF ~r.ok \/ r.v[1] # 0 THEN Fail ELSE [r EXCEPT !.v = ((r.v[1] * 256 + r.v[2]) * 256 + r.v[3]) * 256 + r.v[4]]
Row(T, n, q) ==
  LET a == Count(q) IN IF ~a.ok THEN Fail
  ELSE LET b == Take(a.q, a.v) IN
       IF ~b.ok \/ b.v = <<>> \/ Len(b.v) < Header(n) + 8 * n THEN Fail
       ELSE [b EXCEPT !.v = Read(SubSeq(T, 1, n), b.v) \o [j \in 1..(Len(T) - n) |-> F(T[n + j], <<>>)]]
RECURSIVE Rows_(_, _, _, _, _)
Rows_(T, n, k, q, acc) == IF k = 0 THEN [ok |-> TRUE, q |-> q, v |-> acc]
                          ELSE LET r == Row(T, n, q) IN IF r.ok THEN Rows_(T, n, k - 1, r.q, Append(acc, r.v)) ELSE Fail
List(T, n, q) == LET a == Count(q) IN IF a.ok /\ a.v <= 4 THEN Rows_(T, n, a.v, a.q, <<>>) ELSE Fail
RECURSIVE Lists(_, _, _)
Lists(kinds, q, acc) ==
  IF kinds = <<>> THEN [ok |-> q = <<>>, q |-> q, v |-> acc]
  ELSE LET r == List(kinds[1][1], kinds[1][2], q) IN IF r.ok THEN Lists(Tail(kinds), r.q, Append(acc, r.v)) ELSE Fail
Receive(v0, q0) ==
  LET v == IF Ahead /\ v0 < Current THEN v0 + 1 ELSE v0
      p == LET a == Count(q0) IN IF a.ok THEN Take(a.q, a.v) ELSE Fail
      b == IF p.ok THEN Take(p.q, 4) ELSE Fail
      t == IF ~b.ok THEN Fail
           ELSE IF v < 7 THEN [ok |-> TRUE, q |-> b.q, v |-> <<>>]
           ELSE LET a == Take(b.q, 1) IN
                IF ~a.ok \/ a.v[1] \notin {0, 1} THEN Fail
                ELSE IF a.v[1] = 0 THEN [ok |-> TRUE, q |-> a.q, v |-> <<>>]
                ELSE LET c == Take(a.q, 4) IN [c EXCEPT !.v = <<c.v>>]
      f == <<FileTypes, FileCols(v)>>
      x == <<IndexTypes, IndexCols(v)>>
      r == IF ~t.ok THEN Fail ELSE Lists(IF v >= 10 THEN <<f, f, f, x, x, f, f, f, x, x>> ELSE <<f, f, f, f, f, f, x, x>>, t.q, <<>>)
      L == r.v
      compacts == L[4] # <<>> \/ L[5] # <<>> \/ L[6] # <<>>
  IN IF ~r.ok THEN <<>>
     ELSE <<[part |-> p.v, bucket |-> b.v, total |-> t.v,
             data |-> IF v >= 10 THEN SubSeq(L, 1, 5) ELSE SubSeq(L, 1, 3) \o (IF compacts THEN <<<<>>, <<>>>> ELSE SubSeq(L, 7, 8)),
             compact |-> IF v >= 10 THEN SubSeq(L, 6, 10) ELSE SubSeq(L, 4, 6) \o (IF compacts THEN SubSeq(L, 7, 8) ELSE <<<<>>, <<>>>>)]>>
Empty == [part |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, bucket |-> <<0, 0, 0, 1>>, total |-> <<>>,
          data |-> <<<<>>, <<>>, <<>>, <<>>, <<>>>>, compact |-> <<<<>>, <<>>, <<>>, <<>>, <<>>>>]
Size(m) == LET N(k) == Len(m.data[k]) + Len(m.compact[k]) IN N(1) + N(2) + N(3) + N(4) + N(5)
Init == version \in Versions /\ msg \in {Empty, [Empty EXCEPT !.total = <<<<0, 0, 0, 2>>>>]} /\ sent = <<>> /\ got = <<>>
Add == /\ sent = <<>> /\ Size(msg) < Most
       /\ \E k \in 1..5 : \E x \in IF k <= 3 THEN FilesOf ELSE IndexesOf :
            \/ msg' = [msg EXCEPT !.data[k] = Append(@, x)]
            \/ msg' = [msg EXCEPT !.compact[k] = Append(@, x)]
       /\ UNCHANGED <<version, sent, got>>
Send == sent = <<>> /\ sent' = MessageBytes(version, msg) /\ got' = Receive(version, sent') /\ UNCHANGED <<version, msg>>
Cut == /\ sent # <<>> /\ Len(sent) = Len(MessageBytes(version, msg))
       /\ \E n \in {1, 2, 4, 5, 8, Len(sent) \div 2, Len(sent) - 8} :
            n < Len(sent) /\ sent' = SubSeq(sent, 1, Len(sent) - n) /\ got' = Receive(version, sent')
       /\ UNCHANGED <<version, msg>>
Next == Add \/ Send \/ Cut
Spec == Init /\ [][Next]_vars
Whole == sent # <<>> /\ Len(sent) = Len(MessageBytes(version, msg))
ArrivesAsSent == Whole => got = <<MessageBack(version, msg)>>
CutIsNoticed == (sent # <<>> /\ ~Whole) => got = <<>>
=============================================================================
