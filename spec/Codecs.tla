------------------------------- MODULE Codecs -------------------------------
(* Compact encodings as pairs of functions between values and byte lists.   *)
(* A w-chunk integer is a tuple of chunks, lowest first; all arithmetic is  *)
(* modulo Base^w.  Encodings are lists of bytes.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Base,      \* size of a chunk: 2^16 in conformance, 2^4 in the model
          Width,     \* chunks per integer
          Bits       \* bits per chunk

Bad == [bad |-> TRUE]                   \* the encoding is not one
IsBad(x) == "bad" \in DOMAIN x
Ok(v, rest) == [v |-> v, rest |-> rest]
Drop(b, n) == SubSeq(b, n + 1, Len(b))

RECURSIVE AddC(_, _, _, _), SubC(_, _, _, _), Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
AddC(x, y, k, carry) == IF k > Width THEN <<>>
  ELSE LET s == x[k] + y[k] + carry IN <<s % Base>> \o AddC(x, y, k + 1, s \div Base)
SubC(x, y, k, borrow) == IF k > Width THEN <<>>
  ELSE LET s == x[k] - y[k] - borrow IN
       IF s < 0 THEN <<s + Base>> \o SubC(x, y, k + 1, 1) ELSE <<s>> \o SubC(x, y, k + 1, 0)
Add(x, y) == AddC(x, y, 1, 0)
Sub(x, y) == SubC(x, y, 1, 0)
Zero == [k \in 1..Width |-> 0]
MinusOne == [k \in 1..Width |-> Base - 1]
Negative(x) == x[Width] >= Base \div 2
Shl(x) == Add(x, x)
Shr(x) == [k \in 1..Width |-> (x[k] \div 2) + (IF k < Width /\ x[k + 1] % 2 = 1 THEN Base \div 2 ELSE 0)]
Not(x) == [k \in 1..Width |-> Base - 1 - x[k]]
ZigZag(x) == IF Negative(x) THEN Not(Shl(x)) ELSE Shl(x)
UnZigZag(u) == IF u[1] % 2 = 1 THEN Not(Shr(u)) ELSE Shr(u)

\* ---- variable-length integers: 7 bits per byte, lowest first, high bit = more
Bit(x, n) == IF n >= Width * Bits THEN 0 ELSE (x[(n \div Bits) + 1] \div Pow2(n % Bits)) % 2
Group(x, g) == LET n == 7 * g IN Bit(x, n) + 2 * Bit(x, n + 1) + 4 * Bit(x, n + 2) + 8 * Bit(x, n + 3)
                                 + 16 * Bit(x, n + 4) + 32 * Bit(x, n + 5) + 64 * Bit(x, n + 6)
Groups == (Width * Bits + 6) \div 7
NeedGroups(x) == LET S == {g \in 1..(Groups - 1) : Group(x, g) # 0} IN
                 IF S = {} THEN 1 ELSE 1 + (CHOOSE g \in S : \A h \in S : h <= g)
Varint(x) == [g \in 1..NeedGroups(x) |-> Group(x, g - 1) + (IF g < NeedGroups(x) THEN 128 ELSE 0)]
\* value of the groups of b[1..n]; bits beyond the integer's width are dropped
FromGroups(b, n) ==
  LET BitOf(j) == IF j \div 7 >= n THEN 0 ELSE (b[(j \div 7) + 1] \div Pow2(j % 7)) % 2
      RECURSIVE Chunk(_, _)
      Chunk(k, j) == IF j = Bits THEN 0 ELSE BitOf((k - 1) * Bits + j) * Pow2(j) + Chunk(k, j + 1)
  IN [k \in 1..Width |-> Chunk(k, 0)]
GetVarint(b) ==
  LET E == {n \in 1..Len(b) : n <= Groups /\ b[n] < 128 /\ \A m \in 1..(n - 1) : b[m] >= 128} IN
  IF E = {} THEN Bad ELSE LET n == CHOOSE n \in E : TRUE IN Ok(FromGroups(b, n), Drop(b, n))

\* ---- lists of integers: first value, then differences
EncList(v) ==
  LET RECURSIVE E(_)
      E(k) == IF k > Len(v) THEN <<>>
              ELSE Varint(ZigZag(IF k = 1 THEN v[1] ELSE Sub(v[k], v[k - 1]))) \o E(k + 1)
  IN E(1)
DecList(b) ==
  LET RECURSIVE D(_, _, _)
      D(rest, last, acc) ==
        IF rest = <<>> THEN Ok(acc, <<>>)
        ELSE LET g == GetVarint(rest) IN
             IF IsBad(g) THEN Bad
             ELSE LET x == Add(last, UnZigZag(g.v)) IN D(g.rest, x, Append(acc, x))
  IN D(b, Zero, <<>>)

\* ---- fixed-width fields
BytesPer == Bits \div 8
LE(x) == [n \in 1..(Width * BytesPer) |-> (x[((n - 1) \div BytesPer) + 1] \div Pow2(8 * ((n - 1) % BytesPer))) % 256]
Rev(s) == [n \in 1..Len(s) |-> s[Len(s) + 1 - n]]
BE(x) == Rev(LE(x))
FromLE(b) == LET RECURSIVE C(_, _)
                 C(k, j) == IF j = BytesPer THEN 0 ELSE b[(k - 1) * BytesPer + j + 1] * Pow2(8 * j) + C(k, j + 1)
             IN [k \in 1..Width |-> C(k, 0)]
W == Width * BytesPer
GetInt(b, big) == IF Len(b) < W THEN Bad
  ELSE LET f == SubSeq(b, 1, W) IN Ok(FromLE(IF big THEN Rev(f) ELSE f), Drop(b, W))
GetByte(b) == IF b = <<>> THEN Bad ELSE Ok(b[1], Drop(b, 1))
GetText(b, n) == IF n < 0 \/ Len(b) < n THEN Bad ELSE Ok(SubSeq(b, 1, n), Drop(b, n))
\* 32-bit count; a count no list can have is reported as -1
Count32(b4) == IF b4[1] > 0 THEN -1 ELSE b4[2] * 65536 + b4[3] * 256 + b4[4]
GetCount(b, big) == IF Len(b) < 4 THEN Bad
  ELSE LET f == SubSeq(b, 1, 4) IN Ok(Count32(IF big THEN f ELSE Rev(f)), Drop(b, 4))
PutCount(n) == <<0, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
GetShort(b) == IF Len(b) < 2 THEN Bad ELSE Ok(b[1] * 256 + b[2], Drop(b, 2))
PutShort(n) == <<n \div 256, n % 256>>

\* ---- lists of optional deletion files; h = 0 is "no file", card = -1 is "unknown"
NoFile == [h |-> 0]
EncFile(f) == IF f.h = 0 THEN <<0>>
  ELSE <<1>> \o PutShort(Len(f.p)) \o f.p \o BE(f.off) \o BE(f.len) \o BE(f.card)
EncFiles(fs) ==
  LET RECURSIVE E(_)
      E(k) == IF k > Len(fs) THEN <<>> ELSE EncFile(fs[k]) \o E(k + 1)
  IN IF fs = <<>> THEN <<0>> ELSE <<1>> \o PutCount(Len(fs)) \o E(1)
DecFile(b, card) ==
  LET h == GetByte(b) IN
  IF IsBad(h) THEN Bad ELSE IF h.v = 0 THEN Ok(NoFile, h.rest) ELSE
  LET n == GetShort(h.rest) IN IF IsBad(n) THEN Bad ELSE
  LET p == GetText(n.rest, n.v) IN IF IsBad(p) THEN Bad ELSE
  LET o == GetInt(p.rest, TRUE) IN IF IsBad(o) THEN Bad ELSE
  LET l == GetInt(o.rest, TRUE) IN IF IsBad(l) THEN Bad ELSE
  IF ~card THEN Ok([h |-> 1, p |-> p.v, off |-> o.v, len |-> l.v, card |-> MinusOne], l.rest) ELSE
  LET c == GetInt(l.rest, TRUE) IN IF IsBad(c) THEN Bad ELSE
  Ok([h |-> 1, p |-> p.v, off |-> o.v, len |-> l.v, card |-> c.v], c.rest)
\* version 4 and later carry the cardinality
DecFiles(b, ver) ==
  LET h == GetByte(b)
      RECURSIVE D(_, _, _)
      D(rest, n, acc) == IF n = 0 THEN Ok(acc, rest)
        ELSE LET f == DecFile(rest, ver >= 4) IN IF IsBad(f) THEN Bad ELSE D(f.rest, n - 1, Append(acc, f.v))
  IN IF IsBad(h) THEN Bad ELSE IF h.v # 1 THEN Ok(<<>>, h.rest)
     ELSE LET n == GetCount(h.rest, TRUE) IN
          IF IsBad(n) \/ n.v < 0 \/ (n.v > 0 /\ ver < 1) \/ n.v > Len(h.rest) THEN Bad ELSE D(n.rest, n.v, <<>>)

\* ---- blob descriptors: version, uri, offset, length (-1: to the end), lowest byte first
GoodBlob(d) == ~Negative(d.off) /\ (~Negative(d.len) \/ d.len = MinusOne)
EncBlob(d) == <<1>> \o Rev(PutCount(Len(d.u))) \o d.u \o LE(d.off) \o LE(d.len)
DecBlob(b) ==
  LET v == GetByte(b) IN IF IsBad(v) THEN Bad ELSE IF v.v # 1 THEN Bad ELSE
  LET n == GetCount(v.rest, FALSE) IN IF IsBad(n) THEN Bad ELSE
  LET u == GetText(n.rest, n.v) IN IF IsBad(u) THEN Bad ELSE
  LET o == GetInt(u.rest, FALSE) IN IF IsBad(o) THEN Bad ELSE
  LET l == GetInt(o.rest, FALSE) IN IF IsBad(l) THEN Bad ELSE
  LET d == [u |-> u.v, off |-> o.v, len |-> l.v] IN IF GoodBlob(d) THEN Ok(d, l.rest) ELSE Bad
=============================================================================
