----------------------------- MODULE RowsModel -----------------------------
(* A writer is used for row after row without clearing its buffer: it writes *)
(* the bytes of numbers, whole slots for the rest, and clears the last word   *)
(* of a text before writing it.  What it produces must depend on the row      *)
(* alone, and reading must return the row.                                    *)
EXTENDS Rows, TLC
CONSTANTS Fields, Size, Clear, Rich
VARIABLES types, buf, end, row
vars == <<types, buf, end, row>>
Rep(n, x) == [j \in 1..n |-> x]
Texts == {<<>>, <<0>>, Rep(7, 255), Rep(8, 255), Rep(9, 1)} \cup (IF Rich THEN {Rep(6, 128), Rep(17, 9)} ELSE {})
Decs == {Zeros(16), Rep(16, 255), Zeros(7) \o <<1>> \o Zeros(8)} \cup (IF Rich THEN {Rep(15, 255) \o <<127>>} ELSE {})
Vals(t) == CASE t = "b1" -> {<<0>>, <<255>>}
             [] t = "b8" -> {Zeros(8), Rep(8, 255)}
             [] t = "text" -> Texts
             [] t = "dec" -> Decs
             [] t = "ts" -> {<<Zeros(8), 0>>, <<Rep(8, 255), 999999>>}
Kinds == {"b1", "b8", "text", "dec", "ts"}
Of(t) == {[t |-> t, v |-> <<>>]} \cup {[t |-> t, v |-> <<x>>] : x \in Vals(t)}
Put(b, at, q) == [j \in 1..Len(b) |-> IF j > at /\ j <= at + Len(q) THEN q[j - at] ELSE b[j]]
RECURSIVE Write(_, _, _, _)
Write(F, j, b, at) ==
  IF j > Len(F) THEN [b |-> b, at |-> at]
  ELSE LET f == F[j]
           h == Header(Len(F))
           out == Now(Outside(f))
           slot == Slot(f, out, at)
           s == IF f.t \in {"b1", "b8"} /\ ~Null(f) THEN SubSeq(slot, 1, Width(f.t)) ELSE slot
           b1 == Now(Put(b, h + 8 * (j - 1), s))
           b2 == IF Clear /\ (Len(out) % 8 # 0) THEN Now(Put(b1, at + Round(Len(out)) - 8, Zeros(8))) ELSE b1
       IN Write(F, j + 1, Now(Put(b2, at, out)), at + Round(Len(out)))
Init == types \in [1..Fields -> Kinds] /\ buf = Zeros(Size) /\ end = 0 /\ row = <<>>
Next == \E F \in {G \in [1..Fields -> UNION {Of(types[j]) : j \in 1..Fields}] : \A j \in 1..Fields : G[j].t = types[j]} :
           LET h == Header(Fields)
               r == Write(F, 1, Now(Put(buf, 0, Bits(F, 8, h))), h + 8 * Fields)
           IN buf' = r.b /\ end' = r.at /\ row' = F /\ UNCHANGED types
Spec == Init /\ [][Next]_vars
OnlyTheRow == end > 0 => SubSeq(buf, 1, end) = RowBytes(0, row)
ReadsBack == end > 0 => Read(types, SubSeq(buf, 1, end)) = row
=============================================================================
