-------------------------------- MODULE NameModel ------------------------------
(* Every short string over a few characters: how the roles' names relate, and   *)
(* the strings are written to OUT to be tried on the code.                      *)
EXTENDS Names, TLC, Json, IOUtils, SequencesExt

Chars == {"a", ".", "*", ";", " ", "/", "=", "<"}
More == {"N", "'", "\n", "-"}
Bound == IF IOEnv.TIER = "quick" THEN 4 ELSE 5
Ch(c) == [c |-> c, w |-> FALSE]

VARIABLE s
Init == s = <<>>
Next == Len(s) < Bound /\ \E c \in Chars \union (IF Len(s) < 2 THEN More ELSE {}) : s' = Append(s, Ch(c))

RuleIsRef == Valid("rule", s) => Valid("ref", s)
RuleIsGrammar == Valid("rule", s) /\ (\A i \in 1..Len(s) : s[i].c # ";") => Valid("grammar", s)
GrammarIsRef == Valid("grammar", s) => Valid("ref", s)
ImportSplits == Valid("import", s) =>
  /\ Valid("ref", GrammarPart(s)) \/ Reserved(GrammarPart(s))
  /\ Valid("rule", RulePart(s)) \/ Reserved(RulePart(s)) \/ Is(RulePart(s), <<"*">>)
QualifiedImports == Valid("ref", s) /\ Dots(s) # {} => Valid("import", s)
NoSpaces == \A r \in Roles : Valid(r, s) => \A i \in 1..Len(s) : s[i].c \notin {" ", "\n", "<", ">"}
Listed == PrintT("HIST " \o ToJson(Text(s)))
================================================================================
