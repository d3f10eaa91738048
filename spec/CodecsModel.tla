---------------------------- MODULE CodecsModel ----------------------------
(* Over all short lists of small-width integers and small descriptors:      *)
(* decoding inverts encoding, every strict prefix of an encoding of fields  *)
(* is refused, and different values have different encodings.               *)
EXTENDS Codecs
CONSTANT ListInts, FieldInts, Singles
VARIABLES x
Ints == [1..Width -> 0..(Base - 1)]
FewInts == {v \in Ints : v[1] % 16 \in {0, 15} \/ v[2] \in {0, 127, 128, 255}}
FewFields == {<<0, 0>>, <<255, 255>>, <<255, 127>>, <<0, 128>>, <<10, 200>>, <<200, 10>>}
SomeInts == {<<0, 0>>, <<1, 0>>, <<255, 255>>, <<255, 127>>, <<0, 128>>, <<63, 0>>, <<64, 0>>,
             <<192, 255>>, <<191, 255>>, <<0, 64>>, <<255, 63>>, <<10, 200>>}
Lists == UNION {[1..n -> ListInts] : n \in 0..3} \cup {<<v>> : v \in Singles}
Texts == {<<>>, <<65>>, <<0, 255>>}
Files == {NoFile} \cup [h : {1}, p : Texts, off : FieldInts, len : FieldInts, card : FieldInts]
Blobs == [u : Texts, off : FieldInts, len : FieldInts]
Init == x \in [k : {"l"}, v : Lists] \cup [k : {"f"}, v : UNION {[1..n -> Files] : n \in 0..1} \cup {<<NoFile, f>> : f \in Files}]
              \cup [k : {"b"}, v : Blobs]
Next == UNCHANGED x
RoundTrip ==
  CASE x.k = "l" -> DecList(EncList(x.v)) = Ok(x.v, <<>>)
    [] x.k = "f" -> LET e == EncFiles(x.v) IN
                    /\ DecFiles(e, 4) = Ok(x.v, <<>>)
                    /\ \A n \in 0..(Len(e) - 1) : IsBad(DecFiles(SubSeq(e, 1, n), 4))
    [] x.k = "b" -> LET e == EncBlob(x.v) IN
                    IF ~GoodBlob(x.v) THEN IsBad(DecBlob(e))
                    ELSE /\ DecBlob(e) = Ok(x.v, <<>>)
                         /\ \A n \in 0..(Len(e) - 1) : IsBad(DecBlob(SubSeq(e, 1, n)))
Cut == x.k = "l" => LET e == EncList(x.v) IN   \* a cut list is refused or a prefix of the list
         \A n \in 0..(Len(e) - 1) : LET d == DecList(SubSeq(e, 1, n)) IN
            IsBad(d) \/ (Len(d.v) < Len(x.v) /\ d.v = SubSeq(x.v, 1, Len(d.v)))
=============================================================================
