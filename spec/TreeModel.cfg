INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
INVARIANT Inv
PROPERTY Moves
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
