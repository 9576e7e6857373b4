INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS LikelySound LikelyGrows Something
