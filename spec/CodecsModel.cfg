INIT Init
NEXT Next
INVARIANTS RoundTrip Cut
CONSTANTS
  Base = 256
  Width = 2
  Bits = 8
  ListInts <- SomeInts
  FieldInts <- FewFields
  Singles <- FewInts
CHECK_DEADLOCK FALSE
