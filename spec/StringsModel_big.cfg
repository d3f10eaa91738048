INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS Bytes = {97, 66, 195, 169, 226, 240, 255}
 MaxLen = 4
 MaxNeedle = 1
CHECK_DEADLOCK FALSE
