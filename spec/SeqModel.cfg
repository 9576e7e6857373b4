INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Pure Maximal OneEach NoMix Adds EntireIsSaid InOrder Begins Unsaid Steps
