INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SameVisits SameLeaves Deepest ExclusiveIsSymmetric JoiningOnlyAdds AfterLeaves
