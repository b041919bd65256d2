INIT Init
NEXT Next
INVARIANT Pair
INVARIANT Shortest
INVARIANT Settled
CHECK_DEADLOCK FALSE
