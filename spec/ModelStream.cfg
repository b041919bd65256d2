INIT Init
NEXT Next
INVARIANT Refines
INVARIANT NoMore
INVARIANT Exactly
INVARIANT Fits
CHECK_DEADLOCK FALSE
