INIT Init
NEXT Next
CONSTANT N = 5
INVARIANT TypeOK Laws
