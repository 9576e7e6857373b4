INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Sound Complete Unmixed Alone
