INIT Init
NEXT Next
INVARIANTS RoundTrip Cut
CONSTANTS
  Base = 256
  Width = 2
  Bits = 8
  ListInts <- SomeInts
  FieldInts <- SomeInts
  Singles <- Ints
CHECK_DEADLOCK FALSE
