------------------------------- MODULE Murmur -------------------------------
(* The storage format's 32-bit hash over byte lists.  A 32-bit number is    *)
(* four bytes, lowest first.                                                *)
EXTENDS Integers, Sequences, Bitwise
N4(a, b, c, d) == <<a, b, c, d>>
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Xor4(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
Add4(x, y) == LET a == x[1] + y[1]
                  b == x[2] + y[2] + (a \div 256)
                  c == x[3] + y[3] + (b \div 256)
                  d == x[4] + y[4] + (c \div 256)
              IN <<a % 256, b % 256, c % 256, d % 256>>
Mul4(x, y) == LET a == x[1] * y[1]
                  b == x[1] * y[2] + x[2] * y[1] + (a \div 256)
                  c == x[1] * y[3] + x[2] * y[2] + x[3] * y[1] + (b \div 256)
                  d == x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1] + (c \div 256)
              IN <<a % 256, b % 256, c % 256, d % 256>>
Swap16(x) == <<x[3], x[4], x[1], x[2]>>
RotR(x, n) == LET f == P2(n) g == P2(8 - n)
                  R(k) == (x[k] \div f) + ((x[(k % 4) + 1] * g) % 256)
              IN <<R(1), R(2), R(3), R(4)>>
RotL15(x) == RotR(Swap16(x), 1)
RotL13(x) == RotR(Swap16(x), 3)
Shr8(x, n) == <<x[n + 1], IF n + 2 <= 4 THEN x[n + 2] ELSE 0, IF n + 3 <= 4 THEN x[n + 3] ELSE 0,
                IF n + 4 <= 4 THEN x[n + 4] ELSE 0>>
ShrSmall(x, n) == LET f == P2(n) g == P2(8 - n)
                  IN <<(x[1] \div f) + ((x[2] * g) % 256), (x[2] \div f) + ((x[3] * g) % 256),
                       (x[3] \div f) + ((x[4] * g) % 256), x[4] \div f>>
C1 == <<81, 45, 158, 204>>          \* cc9e2d51
C2 == <<147, 53, 135, 27>>          \* 1b873593
Five == <<5, 0, 0, 0>>
E6 == <<100, 107, 84, 230>>         \* e6546b64
M1 == <<107, 202, 235, 133>>        \* 85ebca6b
M2 == <<53, 174, 178, 194>>         \* c2b2ae35
MixK(k) == Mul4(RotL15(Mul4(k, C1)), C2)
MixH(h, k) == Add4(Mul4(RotL13(Xor4(h, k)), Five), E6)
Final(h0) == LET h1 == Mul4(Xor4(h0, Shr8(h0, 2)), M1)
                 h2 == Mul4(Xor4(h1, ShrSmall(Shr8(h1, 1), 5)), M2)
             IN Xor4(h2, Shr8(h2, 2))
Num4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Signed(b) == IF b >= 128 THEN <<b, 255, 255, 255>> ELSE <<b, 0, 0, 0>>
Seed == <<42, 0, 0, 0>>
HashSeeded(q, seed) ==
  LET words == Len(q) \div 4
      RECURSIVE W(_, _), T(_, _)
      W(k, h) == IF k > words THEN h ELSE W(k + 1, MixH(h, MixK(SubSeq(q, 4 * k - 3, 4 * k))))
      T(k, h) == IF k > Len(q) THEN h ELSE T(k + 1, MixH(h, MixK(Signed(q[k]))))
  IN Final(Xor4(T(4 * words + 1, W(1, seed)), Num4(Len(q))))
Hash(q) == HashSeeded(q, Seed)
=============================================================================
