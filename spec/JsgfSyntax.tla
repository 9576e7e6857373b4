------------------------------- MODULE JsgfSyntax ------------------------------
(* JSGF text: a scannerless reader of expansions, rules and grammars, and the   *)
(* normal form in which the meanings of two trees are compared.                 *)
(*                                                                              *)
(* Readers take the text s and a position i (1..Len(s)+1) and give a record     *)
(* [ok, i, e]: whether something was read, the position after it and its tree.  *)
EXTENDS Exp

Ch(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""

Lowers == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","é","ï","д","а","т","ö">>
Uppers == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","É","Ï","Д","А","Т","Ö">>
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
LowerSet == RangeOf(Lowers)
UpperSet == RangeOf(Uppers)
DigitSet == RangeOf(Digits)
LowerCh(c) == IF c \in UpperSet THEN Lowers[CHOOSE i \in 1..Len(Uppers) : Uppers[i] = c] ELSE c
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1

\* Characters of words, names and white space
AlNum == LowerSet \union UpperSet \union DigitSet \union {"_", "日", "本"}
WordChars == AlNum \union {"-", "'"}
GrammarNameChars == AlNum \union {"+", "-", ":", ",", "=", "|", "/", "\\", "(", ")", "[", "]", "@", "#", "%", "!", "^", "&", "~", "$"}
NameChars == GrammarNameChars \union {";"}
Spaces == {" ", "\t", "\n", "\r"}

RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, S) == IF Ch(s, i) \in S THEN SkipIn(s, i + 1, S) ELSE i
WS(s, i) == SkipIn(s, i, Spaces)

RECURSIVE LowerStr(_)
LowerStr(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o LowerStr(SubSeq(s, 2, Len(s)))

Fail(i) == [ok |-> FALSE, i |-> i, e |-> Null]
Good(i, e) == [ok |-> TRUE, i |-> i, e |-> e]

--------------------------------------------------------------------------------
(* Numbers in 1/10000s: digits [ . digits ], at most four places                *)
RECURSIVE IntVal(_, _, _)
IntVal(s, i, j) == IF j < i THEN 0 ELSE IntVal(s, i, j - 1) * 10 + DigitVal(Ch(s, j))

\* Places beyond the fourth are left out: such texts are not judged
FracVal(s, i, j) ==
  LET d(k) == IF i + k <= j THEN DigitVal(Ch(s, i + k)) ELSE 0
  IN d(0) * 1000 + d(1) * 100 + d(2) * 10 + d(3)

\* Numbers from 99999 on count as that
Capped(s, i0, j, frac) ==
  LET i == SkipIn(s, i0, {"0"})
  IN IF j - i > 4 THEN 999990000
     ELSE IF IntVal(s, i, j) = 99999 THEN 999990000
     ELSE IntVal(s, i, j) * 10000 + frac

ReadNumber(s, i) ==
  LET a == SkipIn(s, i, DigitSet)
  IN IF a = i THEN [ok |-> FALSE, i |-> i, v |-> 0]
     ELSE IF Ch(s, a) = "." /\ Ch(s, a + 1) \in DigitSet
     THEN LET b == SkipIn(s, a + 1, DigitSet)
          IN [ok |-> TRUE, i |-> b, v |-> Capped(s, i, a - 1, FracVal(s, a + 1, b - 1))]
     ELSE [ok |-> TRUE, i |-> a, v |-> Capped(s, i, a - 1, 0)]

\* / number /
ReadWeight(s, i0) ==
  LET i == WS(s, i0)
  IN IF Ch(s, i) # "/" THEN [ok |-> FALSE, i |-> i0, v |-> -1]
     ELSE LET n == ReadNumber(s, WS(s, i + 1))
              j == WS(s, n.i)
          IN IF n.ok /\ Ch(s, j) = "/" THEN [ok |-> TRUE, i |-> j + 1, v |-> n.v]
             ELSE [ok |-> FALSE, i |-> i0, v |-> -1]

--------------------------------------------------------------------------------
(* Words, literals, names, references, tags                                     *)
\* Is there [ public ] < ... > = at i: the start of a rule definition?
RECURSIVE SkipNot(_, _, _)
SkipNot(s, i, S) == IF i > Len(s) \/ Ch(s, i) \in S THEN i ELSE SkipNot(s, i + 1, S)

RuleStartAt(s, i) ==
  LET p == IF LowerStr(SubSeq(s, i, Min(i + 5, Len(s)))) = "public" THEN WS(s, i + 6) ELSE i
      q == SkipNot(s, p + 1, {"<", ">"})
  IN /\ Ch(s, p) = "<"
     /\ Ch(s, q) = ">"
     /\ Ch(s, WS(s, q + 1)) = "="

RECURSIVE ReadWords(_, _)
ReadWords(s, i0) ==
  LET i == WS(s, i0)
      j == SkipIn(s, i, WordChars)
  IN IF j = i \/ RuleStartAt(s, i) THEN [i |-> i0, w |-> <<>>]
     ELSE LET o == SubSeq(s, i, j - 1)
              r == ReadWords(s, j)
          IN [i |-> r.i, w |-> <<[o |-> o, l |-> LowerStr(o)]>> \o r.w]

\* base names joined by dots, no white space inside
RECURSIVE ReadDotted(_, _, _)
ReadDotted(s, i, S) ==
  LET j == SkipIn(s, i, S)
  IN IF j = i THEN [ok |-> FALSE, i |-> i, n |-> ""]
     ELSE IF Ch(s, j) = "." /\ Ch(s, j + 1) \in S
     THEN LET r == ReadDotted(s, j + 1, S)
          IN [ok |-> TRUE, i |-> r.i, n |-> SubSeq(s, i, j) \o r.n]
     ELSE [ok |-> TRUE, i |-> j, n |-> SubSeq(s, i, j - 1)]

ReadRef(s, i0) ==
  LET i == WS(s, i0)
  IN IF Ch(s, i) # "<" THEN Fail(i0)
     ELSE LET r == ReadDotted(s, WS(s, i + 1), NameChars)
              j == WS(s, r.i)
          IN IF r.ok /\ Ch(s, j) = ">"
             THEN Good(j + 1, CASE r.n = "NULL" -> Null [] r.n = "VOID" -> Void
                                [] OTHER -> Ref(r.n))
             ELSE Fail(i0)

\* { words }: backslashes escape braces and themselves; words are joined by spaces
RECURSIVE ReadTagWord(_, _)
ReadTagWord(s, i) ==
  IF Ch(s, i) = "\\" /\ Ch(s, i + 1) \in {"\\", "{", "}"}
  THEN LET r == ReadTagWord(s, i + 2) IN [i |-> r.i, n |-> Ch(s, i + 1) \o r.n]
  ELSE IF Ch(s, i) \in WordChars \union {"\\"}
  THEN LET r == ReadTagWord(s, i + 1) IN [i |-> r.i, n |-> Ch(s, i) \o r.n]
  ELSE [i |-> i, n |-> ""]

RECURSIVE ReadTagText(_, _)
ReadTagText(s, i0) ==
  LET i == WS(s, i0)
      w == ReadTagWord(s, i)
  IN IF w.n = "" THEN [i |-> i0, n |-> ""]
     ELSE LET r == ReadTagText(s, w.i)
          IN [i |-> r.i, n |-> w.n \o (IF r.n = "" THEN "" ELSE " " \o r.n)]

ReadTag(s, i0) ==
  LET i == WS(s, i0)
  IN IF Ch(s, i) # "{" THEN [ok |-> FALSE, i |-> i0, n |-> ""]
     ELSE LET r == ReadTagText(s, i + 1)
              j == WS(s, r.i)
          IN IF r.n # "" /\ Ch(s, j) = "}" THEN [ok |-> TRUE, i |-> j + 1, n |-> r.n]
             ELSE [ok |-> FALSE, i |-> i0, n |-> ""]

--------------------------------------------------------------------------------
(* Expansions. Groupings bind first, then tags and the postfix operators, then  *)
(* sequences, then alternatives. A literal is the longest run of words. A repeat*)
(* can be neither tagged nor repeated without a grouping. strict: weights only  *)
(* where there is more than one alternative.                                    *)
RECURSIVE ReadExp(_, _, _), ReadItems(_, _, _), ReadSeq(_, _, _), ReadPost(_, _, _, _), ReadAtom(_, _, _)

ReadExp(s, i0, strict) ==
  LET r == ReadItems(s, i0, strict)
  IN IF ~r.ok THEN Fail(r.i)
     ELSE IF Len(r.es) = 1 /\ r.ws[1] = -1 THEN Good(r.i, r.es[1])
     ELSE IF Len(r.es) = 1 /\ strict THEN Fail(i0)
     ELSE Good(r.i, [Node("alt", r.es) EXCEPT !.wt =
            IF \A k \in 1..Len(r.ws) : r.ws[k] = -1 THEN <<>> ELSE r.ws])

\* item { | item } with item = [ weight ] sequence
ReadItems(s, i0, strict) ==
  LET w == ReadWeight(s, i0)
      q == ReadSeq(s, w.i, strict)
  IN IF ~q.ok THEN [ok |-> FALSE, i |-> q.i, es |-> <<>>, ws |-> <<>>]
     ELSE LET j == WS(s, q.i)
          IN IF Ch(s, j) = "|"
             THEN LET r == ReadItems(s, j + 1, strict)
                  IN [ok |-> r.ok, i |-> r.i, es |-> <<q.e>> \o r.es, ws |-> <<w.v>> \o r.ws]
             ELSE [ok |-> TRUE, i |-> q.i, es |-> <<q.e>>, ws |-> <<w.v>>]

SeqStart == WordChars \union {"(", "[", "<"}

ReadSeq(s, i0, strict) ==
  LET a == ReadAtom(s, i0, strict)
  IN IF ~a.ok THEN a
     ELSE LET p == ReadPost(s, a.i, a.e, FALSE)
          IN IF ~p.ok \/ Ch(s, WS(s, p.i)) \notin SeqStart \/ RuleStartAt(s, WS(s, p.i)) THEN p
             ELSE LET r == ReadSeq(s, p.i, strict)
                  IN IF ~r.ok THEN r
                     ELSE Good(r.i, Node("seq", <<p.e>> \o
                            (IF r.e.k = "seq" THEN r.e.c ELSE <<r.e>>)))

\* Tags and postfix operators after e; repeated: an operator has been read
ReadPost(s, i0, e, repeated) ==
  LET i == WS(s, i0)
      c == Ch(s, i)
  IN IF c = "{"
     THEN LET t == ReadTag(s, i)
          IN IF ~t.ok \/ repeated THEN Fail(i)
             ELSE ReadPost(s, t.i, Tagged(IF e.t = "" THEN e ELSE Node("grp", <<e>>), t.n), FALSE)
     ELSE IF c \in {"+", "*"}
     THEN IF repeated THEN Fail(i)
          ELSE ReadPost(s, i + 1, Node(IF c = "+" THEN "rep" ELSE "star", <<e>>), TRUE)
     ELSE Good(i0, e)

ReadAtom(s, i0, strict) ==
  LET i == WS(s, i0)
      c == Ch(s, i)
  IN CASE RuleStartAt(s, i) -> Fail(i0)
       [] c \in WordChars -> LET r == ReadWords(s, i) IN Good(r.i, Lit(r.w))
       [] c = "<" -> ReadRef(s, i)
       [] c \in {"(", "["} ->
            LET r == ReadExp(s, i + 1, strict)
                j == WS(s, r.i)
            IN IF r.ok /\ Ch(s, j) = (IF c = "(" THEN ")" ELSE "]")
               THEN Good(j + 1, Node(IF c = "(" THEN "grp" ELSE "opt", <<r.e>>))
               ELSE Fail(i0)
       [] OTHER -> Fail(i0)

\* A whole text as one expansion
ParseExp(s, strict) ==
  LET r == ReadExp(s, 1, strict)
  IN IF r.ok /\ WS(s, r.i) = Len(s) + 1 THEN r ELSE Fail(r.i)

--------------------------------------------------------------------------------
(* Normal form: the sequence of items of a tree. Untagged sequences and         *)
(* groupings disappear into the sequence around them, literals become words, a  *)
(* tag of a literal a mark after its words, alternatives without weights join   *)
(* the alternatives around them.                                                *)
Item(k, n, c, t) == [k |-> k, n |-> n, c |-> c, t |-> t, wt |-> <<>>]

IsPlainAlt(x) == x.k = "alt" /\ x.wt = <<>> /\ x.t = ""

RECURSIVE Norm(_, _)
\* tags: keep tags?
Norm(e, tags) ==
  LET t == IF tags THEN e.t ELSE ""
      body == FlattenSeq([j \in 1..Len(e.c) |-> Norm(e.c[j], tags)])
      wrapped(its) == IF t = "" THEN its ELSE <<Item("group", "", its, t)>>
  IN CASE e.k = "lit" -> [j \in 1..Len(e.w) |->
                            Item("word", IF e.cs THEN e.w[j].o ELSE e.w[j].l, <<>>, "")]
                         \o (IF t = "" THEN <<>> ELSE <<Item("mark", "", <<>>, t)>>)
       [] e.k = "dict" -> <<Item("ref", "DICTATION", <<>>, t)>>
       [] e.k \in {"null", "void", "ref"} -> <<Item("ref", e.n, <<>>, t)>>
       [] e.k \in {"seq", "grp"} -> IF e.c = <<>> THEN <<Item("ref", "NULL", <<>>, t)>>
                                    ELSE wrapped(body)
       [] e.k = "opt" -> <<Item("opt", "", body, t)>>
       [] e.k \in {"rep", "star"} -> wrapped(<<Item(e.k, "", body, "")>>)
       [] e.k = "alt" ->
            LET alts == [j \in 1..Len(e.c) |-> Norm(e.c[j], tags)]
                plain == FlattenSeq([j \in 1..Len(alts) |->
                           IF Len(alts[j]) = 1 /\ IsPlainAlt(alts[j][1]) THEN alts[j][1].c
                           ELSE <<alts[j]>>])
            IN IF e.wt = <<>>
               THEN wrapped(IF Len(plain) = 1 THEN plain[1] ELSE <<Item("alt", "", plain, "")>>)
               ELSE wrapped(<<[Item("alt", "", alts, "") EXCEPT !.wt = e.wt]>>)
       [] OTHER -> <<Item("unknown", e.k, <<>>, t)>>

\* The same tree with case mattering in every literal: what text says as written
RECURSIVE AsWritten(_)
AsWritten(e) == [e EXCEPT !.cs = TRUE, !.c = [j \in 1..Len(e.c) |-> AsWritten(e.c[j])]]

SameMeaning(a, b) == Norm(a, TRUE) = Norm(b, TRUE)

--------------------------------------------------------------------------------
(* Rules and grammars. Comments are taken out first: a comment counts as a      *)
(* space, the end of a line comment stays.                                      *)
\* The text goes into chunks between comments
RECURSIVE CommentEnd(_, _)
CommentEnd(s, i) == IF i >= Len(s) THEN 0
                    ELSE IF Ch(s, i) = "*" /\ Ch(s, i + 1) = "/" THEN i + 2 ELSE CommentEnd(s, i + 1)

RECURSIVE Uncomment(_, _, _)
Uncomment(s, from, i) ==
  IF i >= Len(s) THEN SubSeq(s, from, Len(s))
  ELSE IF Ch(s, i) = "/" /\ Ch(s, i + 1) = "/"
  THEN LET j == SkipNot(s, i, {"\n"})
       IN SubSeq(s, from, i - 1) \o " " \o Uncomment(s, j, j)
  ELSE IF Ch(s, i) = "/" /\ Ch(s, i + 1) = "*"
  THEN LET j == CommentEnd(s, i + 2)
       IN IF j = 0 THEN SubSeq(s, from, Len(s))
          ELSE SubSeq(s, from, i - 1) \o " " \o Uncomment(s, j, j)
  ELSE Uncomment(s, from, i + 1)

StripComments(s) == Uncomment(s, 1, 1)

\* ends of statements: ; or a line end, any number of them
EndStatement(s, i0) ==
  LET i == SkipIn(s, i0, {" ", "\t", "\r"})
  IN IF Ch(s, i) \notin {";", "\n"} THEN [ok |-> FALSE, i |-> i0]
     ELSE [ok |-> TRUE, i |-> SkipIn(s, i, Spaces \union {";"})]

KeywordAt(s, i, word) == /\ LowerStr(SubSeq(s, i, Min(i + Len(word) - 1, Len(s)))) = word
                         /\ Ch(s, i + Len(word)) \notin WordChars \union {"$"}

HasDot(n) == \E i \in 1..Len(n) : Ch(n, i) = "."
Reserved == {"NULL", "VOID"}

\* [ public ] <name> = expansion end
BadRule(i) == [ok |-> FALSE, i |-> i, n |-> "", v |-> FALSE, e |-> Null]
ReadRule(s, i0, strict) ==
  LET i == WS(s, i0)
      v == KeywordAt(s, i, "public")
      a == IF v THEN WS(s, i + 6) ELSE i
      n == ReadDotted(s, WS(s, a + 1), NameChars)
      b == WS(s, n.i)
      c == WS(s, b + 1)
  IN IF Ch(s, a) # "<" \/ ~n.ok \/ Ch(s, b) # ">" \/ Ch(s, c) # "=" THEN BadRule(i0)
     ELSE LET e == ReadExp(s, c + 1, strict)
              x == EndStatement(s, e.i)
          IN IF ~e.ok \/ ~x.ok \/ HasDot(n.n) \/ n.n \in Reserved THEN BadRule(i0)
             ELSE [ok |-> TRUE, i |-> x.i, n |-> n.n, v |-> v, e |-> e.e]

RECURSIVE ReadRules(_, _, _)
ReadRules(s, i, strict) ==
  LET r == ReadRule(s, i, strict)
  IN IF ~r.ok THEN [i |-> i, rs |-> <<>>]
     ELSE LET q == ReadRules(s, r.i, strict)
          IN [i |-> q.i, rs |-> <<[n |-> r.n, v |-> r.v, e |-> r.e]>> \o q.rs]

\* import < name[.*] > end
RECURSIVE ReadImports(_, _)
ReadImports(s, i0) ==
  LET i == WS(s, i0)
      a == WS(s, i + 6)
      n == ReadDotted(s, WS(s, a + 1), NameChars)
      wild == Ch(s, n.i) = "." /\ Ch(s, n.i + 1) = "*"
      b == WS(s, IF wild THEN n.i + 2 ELSE n.i)
      x == EndStatement(s, b + 1)
  IN IF ~KeywordAt(s, i, "import") \/ Ch(s, a) # "<" \/ ~n.ok \/ Ch(s, b) # ">" \/ ~x.ok
        \/ ~(wild \/ HasDot(n.n))
     THEN [i |-> i0, ns |-> <<>>]
     ELSE LET q == ReadImports(s, x.i)
          IN [i |-> q.i, ns |-> <<n.n \o (IF wild THEN ".*" ELSE "")>> \o q.ns]

\* #JSGF Vn.n [ charset ] [ language ] end. A single word of two characters is the
\* language.
ReadHeader(s, i0) ==
  LET i == WS(s, i0)
      v == WS(s, i + 5)
      a == SkipIn(s, v + 1, DigitSet)
      b == IF Ch(s, a) = "." THEN SkipIn(s, a + 1, DigitSet) ELSE a
      HS == {" ", "\t"}
      c == SkipIn(s, b, HS)
      d == SkipIn(s, c, WordChars)
      e == SkipIn(s, d, HS)
      f == SkipIn(s, e, WordChars)
      x == EndStatement(s, f)
      w1 == SubSeq(s, c, d - 1)
      w2 == SubSeq(s, e, f - 1)
      swap == w2 = "" /\ Len(w1) = 2
  IN [ok |-> /\ LowerStr(SubSeq(s, i, Min(i + 4, Len(s)))) = "#jsgf"
             /\ Ch(s, v) \in {"v", "V"}
             /\ b > a /\ b - v > 2
             /\ x.ok,
      i |-> x.i,
      ver |-> SubSeq(s, v + 1, b - 1),
      cs |-> IF swap THEN "" ELSE w1,
      lang |-> IF swap THEN w1 ELSE w2]

NoGrammar == [ok |-> FALSE, name |-> "", ver |-> "", cs |-> "", lang |-> "", imports |-> <<>>, rules |-> <<>>,
              doubt |-> FALSE]

\* Two rules of one name made of the same words might be equal to the library (equality
\* looks neither at tags nor at the order of alternatives)
RECURSIVE WordsIn(_)
WordsIn(e) == RangeOf(e.w) \union UNION {WordsIn(e.c[i]) : i \in 1..Len(e.c)}
Doubtful(rs) == \E i, j \in 1..Len(rs) : rs[i].n = rs[j].n /\ rs[i] # rs[j] /\ WordsIn(rs[i].e) = WordsIn(rs[j].e)

RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET r == Dedup(SubSeq(s, 1, Len(s) - 1))
                 IN IF s[Len(s)] \in RangeOf(r) THEN r ELSE Append(r, s[Len(s)])

\* minRules: a grammar of nothing but imports is no grammar, but compiles
ReadGrammar(s0, strict, minRules) ==
  LET s == StripComments(s0)
      h == ReadHeader(s, 1)
      g == WS(s, h.i)
      n == ReadDotted(s, WS(s, g + 7), GrammarNameChars)
      x == EndStatement(s, n.i)
      m == ReadImports(s, x.i)
      r == ReadRules(s, m.i, strict)
  IN IF /\ h.ok /\ SubSeq(s, g, Min(g + 6, Len(s))) = "grammar" /\ Ch(s, g + 7) \in Spaces
        /\ n.ok /\ n.n \notin Reserved /\ x.ok
        /\ Len(r.rs) >= minRules /\ WS(s, r.i) = Len(s) + 1
        /\ \A i, j \in 1..Len(r.rs) : r.rs[i].n = r.rs[j].n => r.rs[i] = r.rs[j]
     THEN [ok |-> TRUE, name |-> n.n, ver |-> h.ver, cs |-> h.cs, lang |-> h.lang,
           imports |-> Dedup(m.ns), rules |-> Dedup(r.rs),
           doubt |-> FALSE]
     ELSE [NoGrammar EXCEPT !.doubt = Doubtful(r.rs)]

\* A whole text as one rule
ParseRule(s0, strict) ==
  LET s == StripComments(s0)
      r == ReadRule(s, 1, strict)
  IN IF r.ok /\ WS(s, r.i) = Len(s) + 1 THEN r ELSE BadRule(r.i)

SameRules(a, b) ==
  Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].n = b[i].n /\ a[i].v = b[i].v /\ SameMeaning(a[i].e, b[i].e)

SameGrammar(a, b) ==
  a.name = b.name /\ a.ver = b.ver /\ a.cs = b.cs /\ a.lang = b.lang
  /\ a.imports = b.imports /\ SameRules(a.rules, b.rules)
================================================================================
