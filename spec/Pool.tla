------------------------------- MODULE Pool -------------------------------
(* A memory pool: bytes in use and the largest number ever in use.          *)
EXTENDS Integers, Sequences, FiniteSets
Max(a, b) == IF a >= b THEN a ELSE b
Empty == [cur |-> 0, peak |-> 0]
Grow(p, d) == [cur |-> p.cur + d, peak |-> Max(p.peak, p.cur + d)]
Shrink(p, d) == [p EXCEPT !.cur = @ - d]
\* in place, or by a second block that lives beside the first for a moment
Resize(p, old, new) == {[cur |-> p.cur - old + new, peak |-> Max(p.peak, p.cur - old + new)],
                        Shrink(Grow(p, new), old)}
=============================================================================
