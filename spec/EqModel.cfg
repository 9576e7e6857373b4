INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Canonical BagImplies SameLanguage
