INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS RuleIsRef RuleIsGrammar GrammarIsRef ImportSplits QualifiedImports NoSpaces Listed
