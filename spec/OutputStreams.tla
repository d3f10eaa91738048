--------------------------- MODULE OutputStreams ---------------------------
(* An output stream is the list of bytes written.  A value is its          *)
(* big-endian bytes; a text carries a 16-bit length.                       *)
EXTENDS Integers, Sequences
Rev(q) == [n \in 1..Len(q) |-> q[Len(q) + 1 - n]]
Value(v, little) == IF little THEN Rev(v) ELSE v
MaxText == 65535
TextHead(n, little) == Value(<<n \div 256, n % 256>>, little)
Text(v, little) == TextHead(Len(v), little) \o v
=============================================================================
