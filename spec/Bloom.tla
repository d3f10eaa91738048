------------------------------- MODULE Bloom -------------------------------
(* A Bloom filter over 64-bit hashes, given as four 16-bit chunks            *)
(* <<c0, c1, c2, c3>> (low to high).  The k positions of a hash are those of  *)
(* the storage format: (low32 + j * high32) mod 2^32, complemented when the   *)
(* sign bit is set, modulo the number of bits.                                *)
EXTENDS Integers, Sequences, FiniteSets
W == 65536
Pos(h, j, nbits) ==
  LET l == h[1] + j * h[3]
      u == (h[2] + j * h[4] + l \div W) % W
      v == l % W
  IN (IF u >= 32768 THEN (65535 - u) * W + (65535 - v) ELSE u * W + v) % nbits
Positions(h, k, nbits) == {Pos(h, j, nbits) : j \in 1..k}
Maybe(bits, h, k, nbits) == Positions(h, k, nbits) \subseteq bits
=============================================================================
