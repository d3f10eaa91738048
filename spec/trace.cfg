INIT Init
NEXT Next
INVARIANT Accepted
VIEW Pos
