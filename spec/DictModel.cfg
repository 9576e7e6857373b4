INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS GDSound DelimitedRead ClearAlone
