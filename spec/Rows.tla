-------------------------------- MODULE Rows --------------------------------
(* Rows and arrays as they are stored, hashed and compared.  A field is      *)
(* [t |-> its kind, v |-> <<>> if it is null, else <<value>>]:                *)
(*   b1 b2 b4 b8   the bytes of a number, lowest first                        *)
(*   text          bytes                                                      *)
(*   dec           a large decimal: 16 bytes, highest first                   *)
(*   ts            a precise instant: <<bytes of the milliseconds, nanos>>    *)
(*   row, arr      [k, f] and [w, f]: kind or element width, and fields       *)
EXTENDS Integers, Sequences
Now(q) == <<>> \o q
Zeros(n) == [j \in 1..n |-> 0]
Le4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Be4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Round(n) == 8 * ((n + 7) \div 8)
Pad(q) == q \o Zeros(Round(Len(q)) - Len(q))
Null(f) == f.v = <<>>
AnyNull(F) == \E j \in DOMAIN F : Null(F[j])
(* a number, highest byte first, without bytes that only repeat the sign *)
RECURSIVE Trim(_)
Trim(q) == IF Len(q) > 1 /\ ((q[1] = 0 /\ q[2] < 128) \/ (q[1] = 255 /\ q[2] >= 128)) THEN Trim(Tail(q)) ELSE q
(* n bytes whose bit lead + j says that field j is null *)
Pow == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bits(F, lead, n) ==
  LET B(x) == LET j == x - lead + 1 IN IF j \in DOMAIN F /\ Null(F[j]) THEN Pow[(x % 8) + 1] ELSE 0
  IN [j \in 1..n |-> LET x == 8 * (j - 1) IN B(x) + B(x + 1) + B(x + 2) + B(x + 3) + B(x + 4) + B(x + 5) + B(x + 6) + B(x + 7)]
RECURSIVE RowBytes(_, _), ArrBytes(_, _)
(* the bytes of a field outside of its slot, and the slot *)
Outside(f) ==
  CASE f.t = "ts" -> IF Null(f) THEN Zeros(8) ELSE f.v[1][1]
    [] f.t = "dec" -> IF Null(f) THEN Zeros(16) ELSE LET q == Trim(f.v[1]) IN q \o Zeros(16 - Len(q))
    [] Null(f) -> <<>>
    [] f.t = "text" -> IF Len(f.v[1]) <= 7 THEN <<>> ELSE f.v[1]
    [] f.t = "row" -> RowBytes(f.v[1].k, f.v[1].f)
    [] f.t = "arr" -> ArrBytes(f.v[1].w, f.v[1].f)
    [] OTHER -> <<>>
Slot(f, out, at) ==
  CASE f.t \in {"ts", "dec"} /\ Null(f) -> Zeros(4) \o Le4(at)
    [] Null(f) -> Zeros(8)
    [] f.t = "ts" -> Le4(f.v[1][2]) \o Le4(at)
    [] f.t = "dec" -> Le4(Len(Trim(f.v[1]))) \o Le4(at)
    [] f.t = "text" /\ Len(f.v[1]) <= 7 -> f.v[1] \o Zeros(7 - Len(f.v[1])) \o <<128 + Len(f.v[1])>>
    [] f.t \in {"text", "row", "arr"} -> Le4(Len(out)) \o Le4(at)
    [] OTHER -> f.v[1] \o Zeros(8 - Len(f.v[1]))
RECURSIVE Fill(_, _, _, _, _)
Fill(F, j, slots, outs, at) ==
  IF j > Len(F) THEN slots \o outs
  ELSE LET out == Now(Outside(F[j])) IN
       Fill(F, j + 1, Now(slots \o Slot(F[j], out, at)), Now(outs \o Pad(out)), at + Round(Len(out)))
Header(n) == 8 * ((n + 71) \div 64)
RowBytes(kind, F) ==
  LET h == Header(Len(F)) IN Now([Bits(F, 8, h) EXCEPT ![1] = kind] \o Fill(F, 1, <<>>, <<>>, h + 8 * Len(F)))
RECURSIVE Flat(_, _, _)
Flat(F, w, j) == IF j > Len(F) THEN <<>> ELSE (IF Null(F[j]) THEN Zeros(w) ELSE F[j].v[1]) \o Flat(F, w, j + 1)
ArrBytes(w, F) ==
  LET n == Len(F)
      head == Now(Le4(n) \o Bits(F, 0, 4 * ((n + 31) \div 32)))
      fixed == Round(Len(head) + w * n)
      gap == Zeros(fixed - Len(head) - w * n)
      Wide == \E j \in 1..n : F[j].t \in {"text", "dec", "ts", "row", "arr"}
  IN IF ~Wide THEN Now(head \o Flat(F, w, 1) \o gap)
     ELSE LET all == Fill(F, 1, <<>>, <<>>, fixed) IN Now(head \o SubSeq(all, 1, 8 * n) \o gap \o SubSeq(all, 8 * n + 1, Len(all)))
(* reading back *)
Num(q) == q[1] + 256 * q[2] + 65536 * q[3] + 16777216 * q[4]
Widen(q) == (IF q[1] >= 128 THEN [j \in 1..(16 - Len(q)) |-> 255] ELSE Zeros(16 - Len(q))) \o q
Width(t) == CASE t = "b1" -> 1 [] t = "b2" -> 2 [] t = "b4" -> 4 [] OTHER -> 8
Read(T, q) ==
  LET h == Header(Len(T))
      One(j) == LET s == SubSeq(q, h + 8 * j - 7, h + 8 * j)
                    At(n) == LET at == Num(SubSeq(s, 5, 8)) IN SubSeq(q, at + 1, at + n)
                    x == 7 + j
                    null == (q[1 + (x \div 8)] \div Pow[(x % 8) + 1]) % 2 = 1
                IN [t |-> T[j],
                    v |-> CASE null -> <<>>
                            [] T[j] = "ts" -> <<<<At(8), Num(SubSeq(s, 1, 4))>>>>
                            [] T[j] = "dec" -> <<Widen(At(Num(SubSeq(s, 1, 4))))>>
                            [] T[j] = "text" /\ s[8] >= 128 -> <<SubSeq(s, 1, s[8] - 128)>>
                            [] T[j] = "text" -> <<At(Num(SubSeq(s, 1, 4)))>>
                            [] OTHER -> <<SubSeq(s, 1, Width(T[j]))>>]
  IN [j \in 1..Len(T) |-> One(j)]
(* the bucket of a key: the remainder of the absolute value of its hash h, lowest byte first *)
RECURSIVE Rest(_, _, _, _)
Rest(h, n, j, r) == IF j = 0 THEN r ELSE Rest(h, n, j - 1, (r * 256 + h[j]) % n)
Neg4(h) == LET a == 256 - h[1]
               b == 255 - h[2] + (a \div 256)
               c == 255 - h[3] + (b \div 256)
               d == 255 - h[4] + (c \div 256)
           IN <<a % 256, b % 256, c % 256, d % 256>>
Bucket(h, n) == IF h[4] >= 128 THEN Rest(Neg4(h), n, 4, 0) ELSE Rest(h, n, 4, 0)
=============================================================================
