INIT Init
NEXT Next
VIEW View
INVARIANT Inv
PROPERTY Step1
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
