------------------------------ MODULE Strings ------------------------------
(* A string is a list of bytes holding UTF-8; where the bytes live is not   *)
(* part of it.  A character takes the number of bytes its first byte        *)
(* announces; bytes that announce nothing count as one character, and the   *)
(* last character may be cut off by the end.                                *)
EXTENDS Memory
CharWidth(b) == CASE b < 128 -> 1
                  [] b >= 194 /\ b < 224 -> 2
                  [] b >= 224 /\ b < 240 -> 3
                  [] b >= 240 /\ b < 248 -> 4
                  [] OTHER -> 1
\* byte positions (0-based) at which characters start
Starts(q) ==
  LET RECURSIVE S(_)
      S(p) == IF p >= Len(q) THEN <<>> ELSE <<p>> \o S(p + CharWidth(q[p + 1]))
  IN S(0)
NumChars(q) == Len(Starts(q))
\* characters b (inclusive) to e (exclusive)
Substring(q, b, e) ==
  LET s == Starts(q)
      from == IF b < 0 THEN 0 ELSE b
      to == IF e > Len(s) THEN Len(s) ELSE e
  IN IF to <= from THEN <<>>
     ELSE LET p == s[from + 1]
              r == IF to >= Len(s) THEN Len(q) ELSE s[to + 1]
          IN SubSeq(q, p + 1, r)
MatchAt(q, x, p) == p >= 0 /\ p + Len(x) <= Len(q) /\ Get(q, p, Len(x)) = x
IndexOf(q, x, from) ==
  IF Len(x) = 0 THEN 0
  ELSE LET s == Starts(q)
           C == {c \in 1..Len(s) : c - 1 >= from /\ MatchAt(q, x, s[c])}
       IN IF C = {} THEN -1 ELSE (CHOOSE c \in C : \A d \in C : c <= d) - 1
Contains(q, x) == \E p \in 0..Len(q) : MatchAt(q, x, p)
StartsWith(q, x) == MatchAt(q, x, 0)
EndsWith(q, x) == MatchAt(q, x, Len(q) - Len(x))
Upper(q) == [k \in 1..Len(q) |-> IF q[k] >= 97 /\ q[k] <= 122 THEN q[k] - 32 ELSE q[k]]
Lower(q) == [k \in 1..Len(q) |-> IF q[k] >= 65 /\ q[k] <= 90 THEN q[k] + 32 ELSE q[k]]
=============================================================================
