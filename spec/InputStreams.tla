---------------------------- MODULE InputStreams ----------------------------
(* A stack of input streams is one window over a byte sequence and one     *)
(* position.  off: where the window starts in the sequence, len: its       *)
(* length, pos: position in the window.                                    *)
EXTENDS Integers, Sequences
Byte(e) == (31 * e + e \div 97) % 251
Stream(n) == [off |-> 0, len |-> n, pos |-> 0]
Inside(s, p, n) == p >= 0 /\ n >= 0 /\ p <= s.len /\ p + n <= s.len
Seek(s, p) == [s EXCEPT !.pos = p]
Target(s, off, from) == CASE from = "set" -> off [] from = "cur" -> s.pos + off [] from = "end" -> s.len + off
Content(s, p, n) == [k \in 1..n |-> Byte(s.off + p + k - 1)]
GoodWindow(s, off, len) == off >= 0 /\ len >= -1 /\ off <= s.len /\ (len = -1 \/ off + len <= s.len)
Window(s, off, len) == [off |-> s.off + off, len |-> IF len = -1 THEN s.len - off ELSE len, pos |-> 0]
Rev(q) == [n \in 1..Len(q) |-> q[Len(q) + 1 - n]]
Ordered(q, little) == IF little THEN Rev(q) ELSE q
=============================================================================
