INIT Init
NEXT Next
CONSTANTS NBITS = 16 K = 5
INVARIANTS NoFalseDenial FreshDenies InRange
