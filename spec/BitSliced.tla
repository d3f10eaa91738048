----------------------------- MODULE BitSliced -----------------------------
(* A column index: a partial assignment of values to rows.  Declarative      *)
(* answers, and the slice-wise comparison that computes them.                *)
EXTENDS Integers, Sequences, FiniteSets

Ops == {"eq", "ne", "lt", "le", "gt", "ge"}
Holds(op, x, l) == CASE op = "eq" -> x = l [] op = "ne" -> x # l [] op = "lt" -> x < l
                     [] op = "le" -> x <= l [] op = "gt" -> x > l [] op = "ge" -> x >= l
\* col: rows -> value, a function on the rows that are not null
Answer(col, op, l) == {r \in DOMAIN col : Holds(op, col[r], l)}

\* --- slice-wise comparison (O'Neil) -----------------------------------------
Bit(v, k) == (v \div (2 ^ k)) % 2
Slices(v) == IF v = 0 THEN 0 ELSE CHOOSE n \in 1..31 : 2 ^ (n - 1) <= v /\ v < 2 ^ n
Slice(col, min, k) == {r \in DOMAIN col : Bit(col[r] - min, k) = 1}
RECURSIVE Narrow(_, _, _, _, _)
Narrow(col, min, lit, k, s) ==
  IF k < 0 THEN s
  ELSE LET sl == Slice(col, min, k) IN
       Narrow(col, min, lit, k - 1,
         IF Bit(lit, k) = 1
         THEN [s EXCEPT !.lt = @ \cup (s.eq \ sl), !.eq = @ \cap sl]
         ELSE [s EXCEPT !.gt = @ \cup (s.eq \cap sl), !.eq = @ \ sl])
ONeil(col, min, max, op, l) ==
  LET s == Narrow(col, min, l - min, Slices(max - min) - 1, [lt |-> {}, gt |-> {}, eq |-> DOMAIN col])
  IN CASE op = "eq" -> s.eq [] op = "ne" -> DOMAIN col \ s.eq [] op = "lt" -> s.lt
       [] op = "le" -> s.lt \cup s.eq [] op = "gt" -> s.gt [] op = "ge" -> s.gt \cup s.eq
\* bounds decide where they can
Algo(col, min, max, op, l) ==
  LET all == DOMAIN col IN
  CASE op = "eq" /\ min = max /\ l = min -> all
    [] op = "eq" /\ (l < min \/ l > max) -> {}
    [] op = "ne" /\ min = max /\ l = min -> {}
    [] op = "ne" /\ (l < min \/ l > max) -> all
    [] op = "ge" /\ l <= min -> all
    [] op = "ge" /\ l > max -> {}
    [] op = "gt" /\ l < min -> all
    [] op = "gt" /\ l >= max -> {}
    [] op = "le" /\ l >= max -> all
    [] op = "le" /\ l < min -> {}
    [] op = "lt" /\ l > max -> all
    [] op = "lt" /\ l <= min -> {}
    [] OTHER -> ONeil(col, min, max, op, l)
=============================================================================
