INIT Init
NEXT Next
INVARIANT ValueOk
INVARIANT BytesOk
CHECK_DEADLOCK FALSE
