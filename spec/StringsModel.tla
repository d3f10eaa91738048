---------------------------- MODULE StringsModel ----------------------------
(* The laws that make the definitions a textual algebra, for all strings up *)
(* to a length over bytes of every width class, and the character-stepping  *)
(* search over segments against the definition.                             *)
EXTENDS Strings
CONSTANTS Bytes, MaxLen, MaxNeedle
VARIABLES q, x, b, e
Lists(n) == UNION {[1..k -> Bytes] : k \in 0..n}
Init == q \in Lists(MaxLen) /\ x \in Lists(MaxNeedle) /\ b \in 0..MaxLen /\ e \in 0..(MaxLen + 1)
Next == UNCHANGED <<q, x, b, e>>
\* stepping algorithm: walk characters, compare at each start
Search(from) ==
  LET RECURSIVE Skip(_, _), Walk(_, _)
      Skip(p, c) == IF p < Len(q) /\ c < from THEN Skip(p + CharWidth(q[p + 1]), c + 1) ELSE <<p, c>>
      Walk(p, c) == IF p + Len(x) > Len(q) THEN -1
                    ELSE IF Get(q, p, Len(x)) = x THEN c
                    ELSE IF p + CharWidth(q[p + 1]) >= Len(q) THEN -1
                    ELSE Walk(p + CharWidth(q[p + 1]), c + 1)
      s == Skip(0, 0)
  IN IF Len(x) = 0 THEN 0 ELSE Walk(s[1], s[2])
Laws ==
  /\ Substring(q, 0, NumChars(q)) = q
  /\ b <= e => (Substring(q, 0, b) \o Substring(q, b, e)) = Substring(q, 0, e)
  /\ NumChars(q) <= Len(q) /\ (NumChars(q) = 0 <=> q = <<>>)
  /\ (IndexOf(q, x, b) >= 0) => Contains(q, x)
  /\ StartsWith(q, x) => Contains(q, x)
  /\ EndsWith(q, x) => Contains(q, x)
  /\ (Contains(q, x) <=> (Len(x) = 0 \/ FindBytes(q, x) >= 0))
  /\ Search(b) = IndexOf(q, x, b)
  /\ CompareBytes(q, x) = 0 - CompareBytes(x, q)
  /\ (CompareBytes(q, x) = 0) <=> (q = x)
  /\ Lower(Upper(q)) = Lower(q)
=============================================================================
