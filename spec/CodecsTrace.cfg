INIT Init
NEXT Next
INVARIANT Accepted
VIEW Pos
CONSTANTS
  Base = 65536
  Width = 4
  Bits = 16
