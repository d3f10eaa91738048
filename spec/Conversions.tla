----------------------------- MODULE Conversions -----------------------------
(* Points in time, and the tables of names and codes.                             *)
(* 64-bit numbers appear as three parts <<h, m, l>>: h * 2^40 + m * 2^20 + l       *)
(* with 0 <= m, l < 2^20, so that numeric order is the order of the lists.         *)
EXTENDS Integers, Sequences

Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
(* a timestamp: milliseconds (three parts) and nanoseconds of the millisecond *)
TsLess(x, y) == Less(x.ms, y.ms) \/ (x.ms = y.ms /\ x.nano < y.nano)

(* An instant within the calendar: day number since 1970-01-01 and parts of the day. *)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28
(* days before 1 January of year y, counted from 1 January of year 1 *)
BeforeYear(y) == (y - 1) * 365 + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE BeforeMonth(y, m - 1) + MonthLen(y, m - 1)
Epoch == BeforeYear(1970)
DayNumber(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d - 1 - Epoch

YearOf(day) == LET n == day + Epoch
                   guess == (n \div 366) + 1
                   RECURSIVE Up(_)
                   Up(y) == IF BeforeYear(y + 1) <= n THEN Up(y + 1) ELSE y
               IN Up(guess)
MonthOf(day, y) == LET n == day + Epoch - BeforeYear(y)
                   IN CHOOSE m \in 1..12 : BeforeMonth(y, m) <= n /\ n < BeforeMonth(y, m) + MonthLen(y, m)

Digits(v, n) == [k \in 1..n |-> LET RECURSIVE P(_)
                                    P(j) == IF j = 0 THEN 1 ELSE 10 * P(j - 1)
                                IN ((v \div P(n - k)) % 10) + 48]
(* year-month-day hour:minute:second.nanoseconds *)
TimeText(day, ms, nano) ==
  LET y == YearOf(day)
      m == MonthOf(day, y)
      d == day - DayNumber(y, m, 1) + 1
      sec == ms \div 1000
  IN Digits(y, 4) \o <<45>> \o Digits(m, 2) \o <<45>> \o Digits(d, 2) \o <<32>>
     \o Digits(sec \div 3600, 2) \o <<58>> \o Digits((sec \div 60) % 60, 2) \o <<58>> \o Digits(sec % 60, 2)
     \o <<46>> \o Digits(ms % 1000, 3) \o Digits(nano, 6)

(* change kinds: code, short form, name, whether it takes a row back *)
RowKinds == << <<0, "+I", "INSERT", FALSE>>, <<1, "-U", "UPDATE_BEFORE", TRUE>>,
               <<2, "+U", "UPDATE_AFTER", FALSE>>, <<3, "-D", "DELETE", TRUE>> >>
FileKinds == << <<0, "ADD">>, <<1, "DELETE">> >>
FileSources == << <<0, "APPEND">>, <<1, "COMPACT">> >>
StartupModes == {"default", "latest-full", "latest", "from-snapshot", "from-snapshot-full"}

(* statistics of a column: values are numbered in ascending order, -1 = none / unknown *)
Collect(s, v) == IF v = -1
                 THEN [s EXCEPT !.nulls = IF @ = -1 THEN 1 ELSE @ + 1]
                 ELSE [min |-> IF s.min = -1 \/ v < s.min THEN v ELSE s.min,
                       max |-> IF s.max = -1 \/ v > s.max THEN v ELSE s.max,
                       nulls |-> IF s.nulls = -1 THEN 0 ELSE s.nulls]
=============================================================================
