INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS PublicOnly CalledSo FullNames LocalFirst AnyOrder MoreImports Needed Listed
