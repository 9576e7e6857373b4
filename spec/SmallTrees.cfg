INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS GreedySound CountSound NullableSound AssignSound
