----------------------------- MODULE MergeModel -----------------------------
(* The records of one key on their way: collected in batches, each batch    *)
(* merged, the batches of a flush merged into a file, the files merged by   *)
(* the reader.  However they are spread, the reader sees the merge of all.  *)
EXTENDS Merge, TLC
CONSTANTS Rules, Vals, Kinds, Max, Guard
VARIABLES c, hist, batches, files
vars == <<c, hist, batches, files>>
Base == [engine |-> "dedup", ign |-> FALSE, seq |-> <<>>, asc |-> TRUE, agg |-> <<"", "">>, ir |-> <<FALSE, FALSE>>,
         grp |-> <<0, 0>>, keys |-> <<>>, rod |-> FALSE]
Fns == {"last_value", "last_non_null_value", "first_value", "first_non_null_value", "sum", "min", "max"}
AllRules ==
  {[Base EXCEPT !.ign = g, !.seq = s, !.asc = a] : g \in BOOLEAN, s \in {<<>>, <<1>>, <<1, 2>>}, a \in BOOLEAN}
  \cup {[Base EXCEPT !.engine = "first", !.ign = g] : g \in BOOLEAN}
  \cup {[Base EXCEPT !.engine = "agg", !.agg = <<IF s = <<>> THEN "sum" ELSE "", fn>>, !.ir = <<FALSE, ir>>, !.seq = s, !.asc = a] :
           fn \in Fns, ir \in BOOLEAN, s \in {<<>>, <<1>>}, a \in BOOLEAN}
  \cup {[Base EXCEPT !.engine = "partial", !.ign = (x = 1), !.rod = (x = 2), !.seq = s] : x \in 0..2, s \in {<<>>, <<1>>}}
  \cup {[Base EXCEPT !.engine = "partial", !.ign = g, !.grp = <<1, 1>>, !.keys = <<(<<1>>)>>, !.agg = <<"", fn>>, !.ir = <<FALSE, ir>>] :
           g \in BOOLEAN, fn \in Fns \cup {""}, ir \in BOOLEAN}
Rods == {r \in AllRules : r.rod /\ r.seq = <<>>}
Good == {r \in AllRules : Supported(r) /\ (r.seq = <<>> => r.asc)}
Init == c \in Rules /\ hist = <<>> /\ batches = <<(<<>>)>> /\ files = <<>>
RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE bs[1] \o Flat(Tail(bs))
Write == /\ Len(hist) < Max
         /\ \E k \in Kinds, a \in Vals, b \in Vals :
              LET r == [k |-> k, f |-> <<a, b>>, n |-> Len(hist) + 1] IN
              /\ Guard => Fits(c, Flat(batches), r)
              /\ hist' = Append(hist, r) /\ batches' = [batches EXCEPT ![Len(batches)] = Append(@, r)]
         /\ UNCHANGED <<c, files>>
NewBatch == batches[Len(batches)] # <<>> /\ Len(hist) < Max /\ batches' = Append(batches, <<>>) /\ UNCHANGED <<c, hist, files>>
\* a sequence of merge results as one sequence of records, or an error
RECURSIVE Join(_)
Join(ms) == IF ms = <<>> THEN [o |-> "ok", s |-> <<>>]
            ELSE LET t == Join(Tail(ms)) IN
                 IF ms[1].o = "err" \/ t.o = "err" THEN Err
                 ELSE [o |-> "ok", s |-> IF ms[1].o = "row" THEN <<ms[1].r>> \o t.s ELSE t.s]
MergeAll(ms) == LET j == Join(ms) IN IF j.o = "err" THEN Err ELSE Merge(c, j.s)
File(bs) == MergeAll([i \in DOMAIN bs |-> Merge(c, bs[i])])
Flush == /\ \E b \in DOMAIN batches : batches[b] # <<>>
         /\ files' = Append(files, File(batches)) /\ batches' = <<(<<>>)>> /\ UNCHANGED <<c, hist>>
Next == Write \/ NewBatch \/ Flush
Read == MergeAll(files \o (IF batches = <<(<<>>)>> THEN <<>> ELSE <<File(batches)>>))
Same == Seen(Read) = Seen(Merge(c, hist))
MCVals == {<<>>, <<0>>, <<1>>}
MCKinds == {"+I", "-D"}
MCKinds2 == {"+I", "-D", "-U"}
=============================================================================
