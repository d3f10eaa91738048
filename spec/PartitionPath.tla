----------------------------- MODULE PartitionPath -----------------------------
(* Texts are lists of bytes.  A partition is a list of <<name, value>>.           *)
EXTENDS Integers, Sequences

Slash == 47
Equals == 61
Percent == 37
(* control characters, delete and "#%'*/:=?\[]^{} *)
Special == (0..31) \cup {127} \cup {34, 35, 37, 39, 42, 47, 58, 61, 63, 91, 92, 93, 94, 123, 125}

Hex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
UnHex(c) == IF c < 58 THEN c - 48 ELSE c - 55
EscapeByte(c) == IF c \in Special THEN <<Percent, Hex(c \div 16), Hex(c % 16)>> ELSE <<c>>

RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>> ELSE EscapeByte(Head(s)) \o Escape(Tail(s))
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN <<>>
               ELSE IF Head(s) = Percent
                    THEN <<UnHex(s[2]) * 16 + UnHex(s[3])>> \o Unescape(SubSeq(s, 4, Len(s)))
                    ELSE <<Head(s)>> \o Unescape(Tail(s))

Component(nv) == Escape(nv[1]) \o <<Equals>> \o Escape(nv[2]) \o <<Slash>>
RECURSIVE Path(_)
Path(p) == IF p = <<>> THEN <<>> ELSE Component(Head(p)) \o Path(Tail(p))
Prefixes(p) == [j \in 1..Len(p) |-> Path(SubSeq(p, 1, j))]
Valid(p) == \A j \in DOMAIN p : p[j][1] # <<>> /\ p[j][2] # <<>>

(* reading a path back: split at slashes, each component at its equals sign *)
Find(s, c) == IF \E j \in DOMAIN s : s[j] = c
              THEN CHOOSE j \in DOMAIN s : s[j] = c /\ \A k \in 1..(j - 1) : s[k] # c ELSE 0
RECURSIVE Parse(_)
Parse(s) == IF s = <<>> THEN <<>>
            ELSE LET sl == Find(s, Slash)
                     comp == SubSeq(s, 1, sl - 1)
                     eq == Find(comp, Equals)
                 IN <<<<Unescape(SubSeq(comp, 1, eq - 1)), Unescape(SubSeq(comp, eq + 1, Len(comp)))>>>>
                    \o Parse(SubSeq(s, sl + 1, Len(s)))
=============================================================================
