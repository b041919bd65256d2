INIT Init
NEXT Next
INVARIANT Unique
INVARIANT Unambiguous
INVARIANT Found
INVARIANT Sealed
INVARIANT OrderFree
INVARIANT RefusedFree
CHECK_DEADLOCK FALSE
