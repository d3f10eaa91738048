--------------------------- MODULE ConversionsModel ---------------------------
(* Walks the calendar day by day: the conversion of a day number to year, month   *)
(* and day follows it; and statistics over every short list of values bound it.    *)
EXTENDS Conversions, TLC
CONSTANTS FirstYear, LastYear, MaxValues

VARIABLES y, m, d, list, stats
vars == <<y, m, d, list, stats>>
None == [min |-> -1, max |-> -1, nulls |-> -1]

Init == y \in {FirstYear, 4 * (FirstYear \div 4) + 400} /\ m = 1 /\ d = 1 /\ list = <<>> /\ stats = None
NextDay == /\ list = <<>>
           /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
              ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
           /\ y' <= LastYear /\ UNCHANGED <<list, stats>>
AddValue == /\ y = FirstYear /\ m = 1 /\ d = 1 /\ Len(list) < MaxValues
            /\ \E v \in -1..3 : list' = Append(list, v) /\ stats' = Collect(stats, v)
            /\ UNCHANGED <<y, m, d>>
Next == NextDay \/ AddValue
Spec == Init /\ [][Next]_vars

Day == DayNumber(y, m, d)
Calendar == YearOf(Day) = y /\ MonthOf(Day, y) = m
Follows == [][list = list' /\ <<y, m, d>> # <<y', m', d'>> => DayNumber(y', m', d') = Day + 1]_vars
Values == {list[j] : j \in DOMAIN list} \ {-1}
Bounds == /\ Values # {} => /\ stats.min \in Values /\ stats.max \in Values
                            /\ \A v \in Values : stats.min <= v /\ v <= stats.max
          /\ list # <<>> => stats.nulls = Len(SelectSeq(list, LAMBDA v : v = -1))
=============================================================================
