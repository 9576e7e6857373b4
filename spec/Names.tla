---------------------------------- MODULE Names --------------------------------
(* Names of rules, grammars, imports and references. A name is a sequence of    *)
(* characters [c, w]: the character and whether it is alphanumeric, which       *)
(* counts for characters outside ASCII only.                                    *)
EXTENDS Exp

AsciiWord == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
              "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
              "0","1","2","3","4","5","6","7","8","9","_"}
Special == {"+", "-", ":", ";", ",", "=", "|", "/", "\\", "(", ")", "[", "]", "@", "#", "%", "!", "^", "&", "~", "$"}

IsWord(x) == x.c \in AsciiWord \/ x.w
BaseChar(x) == IsWord(x) \/ x.c \in Special
GrammarChar(x) == BaseChar(x) /\ x.c # ";"

Text(s) == [i \in 1..Len(s) |-> s[i].c]
Is(s, t) == Text(s) = t
Reserved(s) == Is(s, <<"N", "U", "L", "L">>) \/ Is(s, <<"V", "O", "I", "D">>)

Base(s, P(_)) == s # <<>> /\ \A i \in 1..Len(s) : P(s[i])

Dots(s) == {i \in 1..Len(s) : s[i].c = "."}
\* Base names joined by dots
Dotted(s, P(_)) ==
  /\ s # <<>> /\ s[1].c # "." /\ s[Len(s)].c # "."
  /\ \A i \in 1..Len(s) : s[i].c = "." \/ P(s[i])
  /\ \A i \in Dots(s) : i + 1 \notin Dots(s)

LastDot(s) == CHOOSE i \in Dots(s) : \A j \in Dots(s) : j <= i
Wild(s) == Len(s) >= 2 /\ s[Len(s)].c = "*" /\ s[Len(s) - 1].c = "."
GrammarPart(s) == SubSeq(s, 1, LastDot(s) - 1)
RulePart(s) == SubSeq(s, LastDot(s) + 1, Len(s))

Roles == {"rule", "grammar", "import", "ref"}

Valid(role, s) ==
  CASE role = "rule"    -> Base(s, BaseChar) /\ ~Reserved(s)
    [] role = "grammar" -> Dotted(s, GrammarChar) /\ ~Reserved(s)
    [] role = "ref"     -> Dotted(s, BaseChar) /\ ~Reserved(s)
    [] role = "import"  -> IF Wild(s) THEN Dotted(SubSeq(s, 1, Len(s) - 2), BaseChar)
                           ELSE Dotted(s, BaseChar) /\ Dots(s) # {}

\* A reserved name as part of a qualified name: nothing is said of it
Unsaid(role, s) == role \in {"import", "ref", "grammar"} /\ Dots(s) # {} /\ Reserved(RulePart(s))

HasComment(s) == \E i \in 1..Len(s) - 1 : s[i].c = "/" /\ s[i + 1].c \in {"/", "*"}
================================================================================
